// P04 sleeps.
#include "w.h"
#include <algorithm>
using namespace w;
namespace p04 {
struct Sl {
    Task *t = nullptr;
    bool in = false;           // inside a sleep
    uint64_t dmin = 0, dmax = 0, req = 0;
    uint64_t unit = 1;
    bool left = false;         // descheduled (dmax fixed)
    bool hit = false;          // interrupted
    uint64_t tw = 0;           // when first interrupted
    int fd = -1;
    FileP ext;
};
static std::vector<Sl *> sl;
static bool over;
static void seen_by_others (const Sl *me)
{
    for (auto s : sl)
        if (s->in && !s->left && s != me) {
            s->left = true;
            s->dmax = now () + s->req + M.gran;
        }
}
static void interrupted (Sl *s)
{
    if (s->in && !s->hit) {
        s->hit = true;
        s->tw = now ();
    }
}
static uint32_t do_sleep (Sl *s, bool milli, uint32_t v)
{
    uint64_t unit = milli ? 1000000 : 1000;
    s->unit = unit;
    s->req = v * unit;
    s->left = s->hit = false;
    uint64_t t0 = now ();
    s->dmin = t0 + s->req;
    s->dmax = ~0ull;
    s->in = true;
    TR ("task %d: %s(%u)", s->t->id, milli ? "sleep" : "usleep", v);
    uint64_t r = milli ? hev_task_sleep (v) : hev_task_usleep (v);
    s->in = false;
    uint64_t t1 = now (), g = M.gran;
    if (!s->left)
        s->dmax = t1 + s->req + g;
    TR ("task %d: slept %llu ns of %llu, returns %llu%s", s->t->id, (unsigned long long)(t1 - t0), (unsigned long long)s->req, (unsigned long long)r, s->hit ? " (interrupted)" : "");
    seen_by_others (s);
    mix (t1, r);
    CHECK (r <= v, "left", "a sleep of %u reports %llu left", v, (unsigned long long)r);
    if (!s->hit) {
        CHECK (r == 0, "left", "a sleep of %u that nobody interrupted reports %llu left", v, (unsigned long long)r);
        CHECK (t1 + unit + g >= s->dmin, "early", "a sleep of %u %s ended after %llu ns though nobody interrupted it", v, milli ? "ms" : "us", (unsigned long long)(t1 - t0));
    } else {
        if (r == 0)
            CHECK (t1 + unit + g > s->dmin, "early", "an interrupted sleep of %u %s reports no time left after %llu ns", v, milli ? "ms" : "us", (unsigned long long)(t1 - t0));
        uint64_t hi = s->dmax > s->tw ? (s->dmax - s->tw + g) / unit : 0;
        uint64_t lo = s->dmin > t1 + g ? (s->dmin - t1 - g) / unit : 0;
        CHECK (r <= hi, "left", "an interrupted sleep reports %llu left, at most %llu are", (unsigned long long)r, (unsigned long long)hi);
        CHECK (r >= lo, "left", "an interrupted sleep reports %llu left, at least %llu are", (unsigned long long)r, (unsigned long long)lo);
    }
    return r;
}
static uint32_t duration (bool milli)
{
    static const uint32_t edge[] = { 1, 2, 999, 1000, 1001, 999999, 1000000, 1000001, 1999999, 2000000, 4294967, 4294968, 4294967295u, 4294967294u, 2147483647u, 2147483648u, 60000, 3600000 };
    switch (choose (6)) {
    case 0: return range (1, 20);
    case 1: return range (1, 3);
    case 2: return 1 + noise () % 5000;
    case 3: return 1 + noise () % (milli ? 3000 : 3000000);
    case 4: return pick (edge);
    default: return choose (2) ? (uint32_t)noise () : (uint32_t)noise () >> choose (32);
    }
}
SCENARIO ("P04", sleeps, 1)
{
    machine_random (choose (4));
    at_cleanup ([] { for (auto s : sl) delete s; sl.clear (); });
    sl.clear ();
    over = false;
    sys_init ();
    int n = choose (10) ? range (1, 6) : range (10, 60);
    bool common = choose (3) == 0;     // equal deadlines
    static uint32_t cv;
    cv = 1 + noise () % 3000;
    uint32_t hits = 0, count = 0;
    static uint64_t start0;
    start0 = now ();
    for (int i = 0; i < n; i++) {
        Sl *s = new Sl ();
        sl.push_back (s);
        uint32_t rounds = range (1, 8);
        bool again = choose (2);
        s->ext = nullptr;
        if (choose (4) == 0)
            s->ext = ext_pipe_in (&s->fd, 4096);
        s->t = spawn ([s, rounds, again, common, &hits, &count] {
            seen_by_others (s);
            if (s->fd >= 0)
                hev_task_add_fd (hev_task_self (), s->fd, POLLIN);
            for (uint32_t k = 0; k < rounds; k++) {
                bool milli = choose (2);
                uint32_t v = common && choose (4) ? cv : choose (40) == 0 ? 0 : duration (milli);
                if (v == 0) {
                    uint64_t tn = turn_no;
                    uint32_t r = milli ? hev_task_sleep (0) : hev_task_usleep (0);
                    CHECK (r == 0, "left", "a sleep of nothing reports %u left", r);
                    (void)tn;
                    continue;
                }
                if (common && choose (2)) {
                    // aim at an absolute deadline shared by all
                    uint64_t d = start0 + (now () - start0) / ms (cv) * ms (cv) + ms (cv);
                    v = (d - now ()) / 1000;
                    if (!v)
                        v = 1;
                    milli = false;
                }
                uint32_t r = do_sleep (s, milli, v);
                count++;
                hits += s->hit;
                while (again && r && choose (4))
                    r = do_sleep (s, milli, r), hits += s->hit;
                if (choose (4) == 0) {
                    yield ();
                    seen_by_others (s);
                }
            }
            if (s->fd >= 0)
                hev_task_del_fd (hev_task_self (), s->fd);
        }, rprio ());
    }
    on_event = [] (int fd, uint32_t) {
        for (auto s : sl)
            if (s->fd == fd)
                interrupted (s);
    };
    on_block = [] { seen_by_others (nullptr); };
    on_jump = [] (uint64_t from, uint64_t to) {
        seen_by_others (nullptr);
        uint64_t L = max_timer_latency ();
        for (auto s : sl)
            if (s->in && s->left && !s->hit) {
                // a timer may be set in the unit of the sleep, or relative to a clock read some calls ago
                uint64_t d = std::max (s->dmax, from) + s->unit + 2 * M.gran + 4 * longest_tick + L * (sl.size () + 2);
                CHECK (to <= d, "late", "task %d sleeps past its time: due at %llu ns, nothing will resume it before %llu ns",
                       s->t->id, (unsigned long long)s->dmax, (unsigned long long)to);
            }
    };
    // interrupters: their own waiting is not judged, and spread over what is slept
    uint32_t ni = choose (3);
    for (uint32_t i = 0; i < ni; i++) {
        uint32_t rounds = range (1, 30);
        Task *t = spawn ([rounds] {
            for (uint32_t k = 0; k < rounds; k++) {
                seen_by_others (nullptr);
                Sl *s = sl[choose (sl.size ())];
                if (live (s->t)) {
                    if (s->in)
                        fault (F_SPURIOUS_WAKE);
                    interrupted (s);
                    hev_task_wakeup (s->t->t);
                }
                switch (choose (3)) {
                case 0: yield (); break;
                case 1: hev_task_usleep (1 + noise () % 3000); break;
                case 2: {
                    // close to somebody's deadline
                    Sl *x = sl[choose (sl.size ())];
                    if (x->in && x->dmin > now () && (x->dmin - now ()) / 1000 < 4000000000ull)
                        hev_task_usleep ((x->dmin - now ()) / 1000 + choose (3));
                    else
                        hev_task_sleep (range (1, 50));
                    break; }
                }
                seen_by_others (nullptr);
            }
        }, rprio ());
        t->pokable = false;
    }
    uint64_t t = now ();
    for (auto s : sl)
        if (s->ext)
            for (uint32_t k = choose (8); k; k--) {
                t += noise () % ms (100);
                FileP e = s->ext;
                at (t, [e] { ext_write (e, "x", 1); });
            }
    sys_run ();
    for (auto s : sl)
        if (s->fd >= 0)
            sim_close (s->fd);
    sys_fini ();
    note ("%d sleepers, %u sleeps, %u interrupted", n, count, hits);
    if (hits)
        probe ("sleep interrupted");
    if (common)
        probe ("equal deadlines");
    nontrivial ();
}
}
