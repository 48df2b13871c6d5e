// P13 polling from a task.
#include "w_stream.h"
using namespace w;
namespace p13 {
struct Item {
    int fd = -1;
    FileP ext;                 // far end, if any
    int kind = 0;              // 0 socket 1 pipe in 2 pipe out 3 file 4 never open 5 negative
};
struct Poller {
    Task *t = nullptr;
    std::vector<Item> items;
    bool in = false;
    std::vector<struct pollfd> set;
    int timeout = 0;
    uint64_t t0 = 0, tb = 0;   // start; first seen waiting
};
static std::vector<Poller *> ps;
static bool finishing;
static uint64_t jumps;

static short actual (const struct pollfd &p)
{
    if (p.fd < 0)
        return 0;
    FileP f = file (p.fd);
    if (!f)
        return POLLNVAL;
    return poll_mask (f.get ()) & (p.events | POLLERR | POLLHUP);
}
static bool any_ready (const std::vector<struct pollfd> &v)
{
    for (auto &p : v)
        if (actual (p))
            return true;
    return false;
}
static void jump (uint64_t from, uint64_t to)
{
    jumps++;
    for (auto p : ps) {
        if (!p->in)
            continue;
        CHECK (!any_ready (p->set), "late", "a task still waits in poll although one of its descriptors is ready");
        CHECK (p->timeout, "late", "a poll without time-out waits");
        if (!p->tb)
            p->tb = from;
        if (p->timeout > 0 && M.stall == 0 && M.tick <= 2)
            CHECK (to <= p->tb + ms (p->timeout) + ms (2) + 30 * M.gran + (tasks.size () + 2) * max_timer_latency (), "late", "a poll with a time-out of %d ms still waits after %llu us", p->timeout, (unsigned long long)((to - p->t0) / 1000));
    }
}
static int timeout ()
{
    static const int edge[] = { 1, 2, 999, 1000, 1001, 5000, 4294968, 4294970 };
    switch (choose (5)) {
    case 0: return range (1, 30);
    case 1: return 0;
    case 2: return finishing ? 10 : -1;
    case 3: return pick (edge);
    default: return finishing ? 20 : choose (2) ? -1 : -2 - (int)choose (1000);
    }
}
static void once (Poller *p)
{
    static const short evs[] = { POLLIN, POLLOUT, POLLIN | POLLOUT, 0, POLLIN | POLLRDHUP };
    p->set.clear ();
    uint32_t n = choose (p->items.size () + 1);
    if (!n && choose (4))
        n = 1;
    bool wakes = false;        // the outside will make one of them readable
    for (uint32_t i = 0; i < n; i++) {
        Item &it = p->items[choose (p->items.size ())];
        struct pollfd f;
        f.fd = it.fd;
        f.events = pick (evs);
        f.revents = (short)noise ();
        if (it.kind <= 1 && (f.events & POLLIN))
            wakes = true;
        p->set.push_back (f);
        if (choose (8) == 7) {
            // the same descriptor again, for something else
            f.events = pick (evs);
            p->set.push_back (f);
            probe ("twice");
        }
    }
    int to = timeout ();
    if (to < 0 && !wakes) {
        to = 7;
        for (auto &it : p->items)
            if (it.kind <= 1 && choose (2)) {
                struct pollfd f;
                f.fd = it.fd;
                f.events = POLLIN;
                f.revents = 0;
                p->set.push_back (f);
                to = -1;
                break;
            }
    }
    p->timeout = to;
    auto before = p->set;
    p->tb = 0;
    p->t0 = now ();
    uint64_t j0 = jumps, tn = turn_no;
    bool ready0 = any_ready (p->set);
    p->in = true;
    p->t->what = "poll";
    TR ("task %d: poll of %zu descriptors, time-out %d%s", p->t->id, p->set.size (), to, ready0 ? " (some ready)" : "");
    uint32_t f0 = R.faults[F_IO_ERROR];
    int r = hev_task_io_poll (p->set.data (), p->set.size (), to);
    int en = errno;
    p->in = false;
    p->t->what = "";
    uint64_t t1 = now ();
    TR ("task %d: poll returns %d after %llu us", p->t->id, r, (unsigned long long)((t1 - p->t0) / 1000));
    mix (r, t1);
    bool waited = turn_no != tn;
    turn_no++;
    if (r < 0 && R.faults[F_IO_ERROR] != f0) {
        CHECK (r == -1 && en == poll_errno, "result", "a poll that fails with error %d returns %d and error %d", poll_errno, r, en);
        probe ("poll-failed");
        return;
    }
    CHECK (r >= 0, "result", "poll returns %d", r);
    int cnt = 0;
    for (size_t i = 0; i < p->set.size (); i++) {
        struct pollfd &f = p->set[i];
        CHECK (f.fd == before[i].fd && f.events == before[i].events, "result", "poll changed the request");
        short a = actual (f);
        if (f.revents)
            cnt++;
        CHECK (!(f.revents & ~a), "untrue", "poll reports %x for a descriptor that is %x (asked for %x)", f.revents, a, f.events);
        if (!M.tick && !M.stall)
            CHECK (f.revents == a, "missed", "poll reports %x for a descriptor that is %x (asked for %x)", f.revents, a, f.events);
    }
    CHECK (cnt == r, "count", "poll returns %d but marks %d descriptors", r, cnt);
    if (r == 0 && to != 0) {
        CHECK (to > 0, "early", "a poll without time limit returns although nothing is ready");
        CHECK (t1 + 200000 + (M.gran > 1000 ? 30 * M.gran : 0) >= p->t0 + ms (to), "early", "a poll of %d ms returns nothing after %llu us", to, (unsigned long long)((t1 - p->t0) / 1000));
        probe ("timed-out");
        if (p->t->pokes) probe ("timed-out-poked");
    }
    if (ready0 && r > 0)
        probe ("ready-at-start");
    if (ready0 || to == 0)
        CHECK (jumps == j0 || waited, "late", "a poll that could return at once waits");
    if (waited && r > 0) { nontrivial (); probe ("woken"); }
    // take something out of the ready ones
    for (size_t i = 0; i < p->set.size (); i++)
        if ((p->set[i].revents & POLLIN) && choose (3)) {
            char b[64];
            FileP f = file (p->set[i].fd);
            if (f && f->type != T_PIPE_W)
                sim_read (p->set[i].fd, b, 1 + noise () % sizeof b);
        } else if ((p->set[i].revents & POLLOUT) && choose (2)) {
            char b[64] = "";
            FileP f = file (p->set[i].fd);
            if (f && (f->type == T_PIPE_W || f->type == T_STREAM) && f->tx && !f->tx->rshut && !f->tx->dead)
                while (sim_write (p->set[i].fd, b, 1 + noise () % sizeof b) > 0 && choose (2))
                    ;
        }
}
static void outside (FileP e)
{
    // something happens at the far end
    switch (noise () % 6) {
    case 0: case 1: case 2:
        if (e->tx && !e->tx->wshut && !e->tx->dead)
            ext_write (e, "0123456789", 1 + noise () % 10);
        break;
    case 3: case 4:
        if (e->rx)
            ext_read (e, 1 + noise () % 200);
        break;
    case 5:
        if (noise () % 4)
            break;
        if (e->tx && e->rx && (noise () & 1))
            ext_reset (e);
        else if (e->tx)
            ext_shut_write (e);
        else
            ext_close (e);
        break;
    }
}
SCENARIO ("P13", polling, 1)
{
    bool faults = choose (4);
    machine_random (faults);
    M.shortw = 0;
    if (faults && choose (4) == 3)
        M.pollerr = range (4, 60);
    at_cleanup ([] { for (auto p : ps) delete p; ps.clear (); });
    finishing = false;
    jumps = 0;
    Leak lk;
    sys_init ();
    on_jump = jump;
    uint32_t n = 1 + choose (3);
    static std::vector<FileP> far;
    far.clear ();
    for (uint32_t i = 0; i < n; i++) {
        Poller *p = new Poller ();
        ps.push_back (p);
        uint32_t k = 1 + choose (5), rounds = 1 + choose (8);
        for (uint32_t j = 0; j < k; j++) {
            Item it;
            it.kind = j == 0 ? choose (2) : choose (6);
            switch (it.kind) {
            case 0: { StreamOpt o; random_stream_opt (o); o.net = false; it.ext = ext_stream (&it.fd, o); break; }
            case 1: it.ext = ext_pipe_in (&it.fd, 1 + noise () % 100); break;
            case 2: it.ext = ext_pipe_out (&it.fd, 1 + noise () % 100); break;
            case 3: fs["/sim/f"] = std::make_shared<std::string> ("text"); it.fd = hev_task_io_open ("/sim/f", O_RDWR); break;
            case 4: it.fd = 500 + j; break;
            default: it.fd = -1 - (int)choose (3); break;
            }
            if (it.ext) {
                far.push_back (it.ext);
                uint32_t m = choose (6);
                for (uint32_t x = 0; x < m; x++) {
                    FileP e = it.ext;
                    after (noise () % (noise () % 2 ? 3000000 : 900000000), [e] { outside (e); });
                }
            }
            p->items.push_back (it);
        }
        p->t = spawn ([=] {
            for (uint32_t x = 0; x < rounds; x++) {
                once (p);
                switch (choose (5)) {
                case 3: yield (); break;
                case 4: hev_task_usleep (1 + noise () % 3000); turn_no++; break;
                default: break;
                }
            }
            for (auto &it : p->items)
                if (it.fd >= 0 && file (it.fd)) {
                    hev_task_del_fd (hev_task_self (), it.fd);
                    sim_close (it.fd);
                }
        }, rprio ());
    }
    maybe_disturbers ();
    // sleepers whose timers interleave
    if (choose (2))
        spawn ([] { for (int i = 0; i < 5; i++) { hev_task_usleep (1 + noise () % 20000); turn_no++; } }, rprio ());
    for (int i = 0; i < 12; i++)
        at_quiet ([] {
            finishing = true;
            for (auto &e : far)
                if (e->tx && !e->tx->wshut && !e->tx->dead)
                    ext_write (e, "more", 4);
        });
    sys_run ();
    on_jump = nullptr;
    far.clear ();
    sys_fini ();
    lk.check ("after fini");
}
}
