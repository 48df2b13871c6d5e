// P05 mutexes, P06 conditions.
#include "w.h"
#include <algorithm>
#include <hev-task-mutex.h>
#include <hev-task-cond.h>
using namespace w;
namespace p05 {
struct Mx {
    HevTaskMutex m;
    int holder = -1;
    int blocked = 0;           // tasks inside lock()
    uint64_t acquired = 0;
};
static Mx mx[4];
static void got (Mx &m, int id)
{
    CHECK (m.holder < 0, "exclusion", "task %d holds the mutex while task %d holds it too", id, m.holder);
    m.holder = id;
    m.acquired++;
    mix (0x6d, id);
}
static bool take (Mx &m, bool tr)
{
    Task *me = self ();
    if (tr) {
        bool fr = m.holder < 0;
        if (fr && m.blocked)
            probe ("try-lock of a free mutex before the waiters take it");
        int r = hev_task_mutex_trylock (&m.m);
        if (!fr)
            CHECK (r != 0, "trylock", "try-lock succeeds although task %d holds the mutex", m.holder);
        else
            CHECK (r == 0, "trylock", "try-lock fails although the mutex is free");
        if (r)
            return false;
        got (m, me->id);
        return true;
    }
    bool fr = m.holder < 0 && m.blocked == 0;
    uint64_t tn = turn_no;
    m.blocked++;
    me->what = "mutex lock";
    TR ("task %d locks %d", me->id, (int)(&m - mx));
    int r = hev_task_mutex_lock (&m.m);
    me->what = "";
    m.blocked--;
    CHECK (r == 0, "result", "lock returns %d", r);
    if (fr)
        CHECK (turn_no == tn, "blocked", "locking a free mutex let other tasks run");
    got (m, me->id);
    return true;
}
static void release (Mx &m)
{
    Task *me = self ();
    CHECK (m.holder == me->id, "exclusion", "task %d releases but task %d took the mutex meanwhile", me->id, m.holder);
    m.holder = -1;
    TR ("task %d unlocks %d", me->id, (int)(&m - mx));
    int r = hev_task_mutex_unlock (&m.m);
    CHECK (r == 0, "result", "unlock returns %d", r);
}
static void dwell ()
{
    for (uint32_t k = choose (4); k; k--)
        switch (choose (3)) {
        case 0: yield (); break;
        case 1: hev_task_usleep (1 + noise () % 2000); turn_no++; break;
        case 2: yield (); yield (); break;
        }
}
SCENARIO ("P05", mutex, 1)
{
    machine_random (choose (4));
    for (auto &m : mx)
        m = Mx ();
    sys_init ();
    int nm = range (1, 3), nt = choose (8) ? range (2, 7) : range (8, 24);
    for (int i = 0; i < nm; i++)
        CHECK (hev_task_mutex_init (&mx[i].m) == 0, "init", "mutex init fails");
    uint32_t trying = choose (3);
    for (int i = 0; i < nt; i++) {
        uint32_t rounds = range (1, 8);
        spawn ([rounds, nm, trying] {
            int me = self ()->id;
            for (uint32_t r = 0; r < rounds; r++) {
                std::vector<int> held;
                uint32_t set = nm == 1 ? 1 : 1 + choose ((1u << nm) - 1);
                for (int k = 0; k < nm; k++)
                    if (set >> k & 1) {
                        if (take (mx[k], choose (4) < trying))
                            held.push_back (k);
                        if (choose (3) == 0)
                            dwell ();
                    }
                dwell ();
                for (int k : held)
                    CHECK (mx[k].holder == me, "exclusion", "task %d lost the mutex it holds", me);
                while (!held.empty ()) {
                    size_t x = choose (held.size ());
                    release (mx[held[x]]);
                    held.erase (held.begin () + x);
                    if (choose (4) == 0)
                        dwell ();
                }
                if (choose (2))
                    dwell ();
            }
        }, rprio0 ());
    }
    maybe_disturbers ();
    sys_run ();
    uint64_t n = 0;
    for (int i = 0; i < nm; i++) {
        CHECK (hev_task_mutex_trylock (&mx[i].m) == 0, "trylock", "a mutex nobody holds cannot be taken");
        n += mx[i].acquired;
    }
    sys_fini ();
    note ("%d mutexes, %d tasks, %llu acquisitions", nm, nt, (unsigned long long)n);
    nontrivial ();
}
}
namespace p06 {
struct Wait {
    int task;
    uint64_t sig0;             // signals issued when it began
    uint64_t t0;
    bool timed;
    uint64_t req;              // ns
    int group;                 // 0 counted, 1 must succeed (broadcast), 2 either way
};
struct Cv {
    HevTaskCond c;
    std::vector<Wait *> w;     // pending
    uint64_t sigs = 0;         // signals and broadcasts issued
    uint64_t cmin = 0, cmax = 0;
};
static Cv cv[2];
static HevTaskMutex mu;
static int holder;
static uint32_t n_ok, n_to, n_sig, n_bc;
static bool ending;
static bool maybe_expired (const Wait *x)
{
    return x->timed && now () + 1000000 + M.gran >= x->t0 + x->req;
}
static void counts (Cv &c, uint64_t &d, uint64_t &e)
{
    d = e = 0;
    for (auto x : c.w)
        if (x->group == 0) {
            if (maybe_expired (x))
                e++;
            else
                d++;
        }
}
static void lost_check (Cv &c)
{
    uint64_t d, e;
    counts (c, d, e);
    c.cmax = std::min (c.cmax, d + e);
    CHECK (c.cmin <= d + e, "lost", "a signal was consumed by a wait that then timed out, or was lost");
}
static void lock ()
{
    Task *t = self ();
    t->what = "mutex lock";
    hev_task_mutex_lock (&mu);
    t->what = "";
    CHECK (holder < 0, "exclusion", "two tasks hold the mutex");
    holder = t->id;
}
static void unlock ()
{
    CHECK (holder == self ()->id, "exclusion", "the mutex was taken by task %d meanwhile", holder);
    holder = -1;
    hev_task_mutex_unlock (&mu);
}
static void do_wait (Cv &c, bool timed, uint32_t msec)
{
    Task *t = self ();
    Wait x{ t->id, c.sigs, now (), timed, ms (msec), 0 };
    c.w.push_back (&x);
    CHECK (holder == t->id, "exclusion", "the mutex was taken meanwhile");
    holder = -1;
    t->what = timed ? "timed condition wait" : "condition wait";
    TR ("task %d waits on %d%s %u", t->id, (int)(&c - cv), timed ? " for ms" : "", msec);
    int r = timed ? hev_task_cond_timedwait (&c.c, &mu, msec) : hev_task_cond_wait (&c.c, &mu);
    t->what = "";
    TR ("task %d wait returns %d", t->id, r);
    mix (0x63 + (r != 0), t->id);
    CHECK (holder < 0, "exclusion", "a wait returned without the mutex: task %d holds it", holder);
    holder = t->id;
    CHECK (hev_task_mutex_trylock (&mu) != 0, "exclusion", "a wait returned but the mutex is free");
    for (size_t i = 0; i < c.w.size (); i++)
        if (c.w[i] == &x)
            c.w.erase (c.w.begin () + i);
    if (r == 0) {
        n_ok++;
        CHECK (c.sigs > x.sig0, "invented", "task %d: a wait succeeds though no signal was issued since it began", t->id);
        if (x.group == 0) {
            CHECK (c.cmax > 0, "invented", "task %d: more waits succeed than signals were issued for", t->id);
            c.cmax--;
            if (c.cmin)
                c.cmin--;
        }
    } else {
        n_to++;
        CHECK (timed, "result", "an untimed wait returns %d", r);
        CHECK (now () + 1000000 + M.gran >= x.t0 + x.req, "early", "a wait of %u ms timed out after %llu ns", msec, (unsigned long long)(now () - x.t0));
        CHECK (x.group != 1, "lost", "task %d: a wait pending at a broadcast timed out although its time had not passed then", t->id);
    }
    lost_check (c);
}
static void do_signal (Cv &c)
{
    uint64_t d, e;
    counts (c, d, e);
    if (c.cmin < d)
        c.cmin++;
    c.cmax = std::min (c.cmax + 1, d + e);
    c.sigs++;
    n_sig++;
    TR ("task %d signals %d (%llu+%llu pending)", self () ? self ()->id : -1, (int)(&c - cv), (unsigned long long)d, (unsigned long long)e);
    CHECK (hev_task_cond_signal (&c.c) == 0, "result", "signal fails");
}
static void do_broadcast (Cv &c)
{
    for (auto x : c.w)
        if (x->group == 0)
            x->group = maybe_expired (x) ? 2 : 1;
    c.cmin = c.cmax = 0;
    c.sigs++;
    n_bc++;
    TR ("task %d broadcasts %d", self () ? self ()->id : -1, (int)(&c - cv));
    CHECK (hev_task_cond_broadcast (&c.c) == 0, "result", "broadcast fails");
}
SCENARIO ("P06", cond, 1)
{
    machine_random (choose (4));
    M.stall = 0;
    for (auto &c : cv)
        c = Cv ();
    holder = -1;
    ending = false;
    n_ok = n_to = n_sig = n_bc = 0;
    sys_init ();
    hev_task_mutex_init (&mu);
    int nc = range (1, 2), nw = choose (12) ? range (1, 6) : range (7, 40), ns = range (1, 3);
    for (int i = 0; i < nc; i++)
        CHECK (hev_task_cond_init (&cv[i].c) == 0, "init", "cond init fails");
    uint32_t timing = choose (4), tmax = choose (3) == 0 ? 4 : 60;
    for (int i = 0; i < nw; i++) {
        uint32_t rounds = range (1, 6);
        spawn ([rounds, timing, tmax, nc] {
            lock ();
            for (uint32_t k = 0; k < rounds && !ending; k++) {
                Cv &c = cv[choose (nc)];
                bool timed = choose (4) < timing;
                uint32_t m = choose (30) == 0 ? (choose (2) ? 0 : 4294967 + choose (3)) : range (1, tmax);
                if (m > 1000000 && choose (2))
                    m = 0;
                do_wait (c, timed, m);
                if (choose (3) == 0) {
                    yield ();
                    if (choose (2))
                        hev_task_usleep (1 + noise () % 4000);
                }
                if (choose (4) == 0) {
                    unlock ();
                    if (choose (2))
                        yield ();
                    lock ();
                }
            }
            unlock ();
        }, rprio ());
    }
    for (int i = 0; i < ns; i++) {
        uint32_t rounds = range (0, 14);
        Task *t = spawn ([rounds, nc, tmax] {
            for (uint32_t k = 0; k < rounds; k++) {
                switch (choose (4)) {
                case 0: yield (); break;
                case 1: hev_task_usleep (1 + noise () % (tmax * 700)); break;
                case 2: hev_task_sleep (range (1, tmax)); break;
                case 3: break;
                }
                bool l = choose (2);
                if (l)
                    lock ();
                Cv &c = cv[choose (nc)];
                for (uint32_t n = choose (4) ? 1 : 2; n; n--) {
                    if (choose (4))
                        do_signal (c);
                    else
                        do_broadcast (c);
                }
                if (l) {
                    if (choose (3) == 0)
                        yield ();
                    unlock ();
                }
            }
        }, rprio ());
        t->pokable = choose (2);
    }
    maybe_disturbers ();
    auto quiet = [nc] {
        for (int i = 0; i < nc; i++) {
            Cv &c = cv[i];
            lost_check (c);
            CHECK (c.cmin == 0, "lost", "%llu signals ended no wait although waits were pending", (unsigned long long)c.cmin);
            for (auto x : c.w) {
                CHECK (x->group != 1, "lost", "task %d was waiting when a broadcast was issued, but waits still", x->task);
                CHECK (!x->timed || x->req > ms (1000000), "late", "task %d: a timed wait does not end", x->task);
            }
            c.cmax = 0;
        }
    };
    at_quiet ([quiet, nc] {
        quiet ();
        // one signal per remaining waiter must release them all
        for (int i = 0; i < nc; i++)
            for (size_t n = cv[i].w.size (); n; n--)
                do_signal (cv[i]);
    });
    at_quiet ([quiet, nc] {
        quiet ();
        ending = true;
        for (int i = 0; i < nc; i++)
            do_broadcast (cv[i]);
    });
    at_quiet ([quiet] {
        quiet ();
        for (auto &c : cv)
            CHECK (c.w.empty (), "lost", "waits remain after a broadcast");
    });
    sys_run ();
    sys_fini ();
    note ("%d waiters: %u ended by a signal, %u timed out; %u signals, %u broadcasts", nw, n_ok, n_to, n_sig, n_bc);
    if (n_to)
        probe ("wait timed out");
    if (n_to && n_ok)
        probe ("time-outs and signals mixed");
    nontrivial ();
}
}
