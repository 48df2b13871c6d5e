// P03 fairness and priorities.
#include "w.h"
#include <algorithm>
using namespace w;
namespace p03 {
struct Tk {
    Task *t = nullptr;
    int prio = 0;
    bool runnable = false;
    uint64_t since = 0;            // turn at which it was first seen runnable
    uint64_t share = 0;            // turns since the last baseline
    bool spinner = false;
    uint64_t due = 0;              // when a pending event of its should be noticed, ns
    uint64_t due_turn = 0;
};
static std::vector<Tk *> tk;
static uint64_t T;                 // turns of tasks that are not real-time
static size_t maxlive;
static bool over;
static uint64_t quota;
static double worst;
static size_t live_now ()
{
    size_t n = 0;
    for (auto x : tk)
        if (x->t && !x->t->done)
            n++;
    return n;
}
static uint64_t bound () { return 20 * maxlive + 40; }
static void scan ()
{
    maxlive = std::max (maxlive, live_now () + 1);
    for (auto x : tk) {
        if (!x->t || x->t->done || !x->t->held)
            continue;
        bool r = hev_task_get_state (x->t->t) == HEV_TASK_RUNNING;
        if (r && !x->runnable) {
            x->runnable = true;
            x->since = T;
        }
        if (r && x->prio > 0) {
            double q = (double)(T - x->since) / (maxlive + 2);
            if (q > worst)
                worst = q;
            CHECK (T - x->since <= bound (), "starved", "task %d (priority %d) is runnable but %llu turns of others passed (at most %zu live tasks)",
                   x->t->id, x->prio, (unsigned long long)(T - x->since), maxlive);
        }
        if (x->due && now () > x->due) {
            if (!x->due_turn)
                x->due_turn = T + 1;
            CHECK (T + 1 - x->due_turn <= bound () + 60, "unnoticed", "task %d has an event pending that is not noticed while others keep yielding (%llu turns, at most %zu live tasks)", x->t->id, (unsigned long long)(T + 1 - x->due_turn), maxlive);
        }
    }
}
static void turn (Tk *x)           // x was given a turn
{
    if (x->prio > 0)
        T++;
    scan ();
    x->runnable = false;
    x->share++;
    if (T > quota && T > 25 * maxlive + 60)
        over = true;
}
static void shares ()
{
    for (auto a : tk)
        for (auto b : tk) {
            if (!a->spinner || !b->spinner || a == b || a->t->done || b->t->done)
                continue;
            if (a->prio < b->prio || (a->prio == b->prio))
                CHECK (a->share + 40 >= b->share, "share", "task %d (priority %d) had %llu turns while task %d (priority %d) had %llu",
                       a->t->id, a->prio, (unsigned long long)a->share, b->t->id, b->prio, (unsigned long long)b->share);
        }
}
static void rebase ()
{
    for (auto x : tk)
        x->share = 0;
}
static void yield_turn (Tk *x)
{
    x->runnable = true;
    x->since = T;
    yield ();
    turn (x);
}
static Tk *add (std::function<void (Tk *)> fn, int prio, bool spin = false)
{
    Tk *x = new Tk ();
    x->prio = prio;
    x->spinner = spin;
    tk.push_back (x);
    x->t = prepare ([x, fn] { turn (x); fn (x); }, prio);
    x->runnable = true;
    x->since = T;
    start (x->t);
    maxlive = std::max (maxlive, live_now () + 1);
    if (spin)
        rebase ();
    return x;
}
static void sleep_turn (Tk *x, uint32_t us)
{
    // the timer serves one sleeper after the other and may be late each time
    x->due = now () + us * 1000ull + max_timer_latency () * (maxlive + 1) + M.gran * 2 + 1000000;
    TR ("task %d sleeps %u us, turn %llu", x->t->id, us, (unsigned long long)T);
    x->due_turn = 0;
    hev_task_usleep (us);
    x->due = 0;
    turn (x);
}
SCENARIO ("P03", fair, 4)
{
    machine_random (choose (4));
    M.stall = 0;
    if (variant_has ("sched_clock"))
        M.tick = 0;                 // turns cost no time there: keys then age per turn
    at_cleanup ([] { for (auto x : tk) delete x; tk.clear (); });
    tk.clear ();
    T = 0;
    maxlive = 0;
    over = false;
    worst = 0;
    set_step_limit (3000000);
    sys_init ();
    int ns = range (1, 5), np = choose (3), nz = choose (4), nc = choose (3), nr = choose (3) ? 0 : 1, nf = choose (3);
    static uint32_t changes;
    changes = 0;
    quota = 60 + choose (2) * 400 + 26 * 2 * (ns + 2 * np + nz + nc * 3 + nr + nf);
    auto prio = [] { return (int)(choose (3) ? range (1, 15) : (choose (2) ? 1 : 15)); };
    bool chg = choose (2);
    for (int i = 0; i < ns; i++)
        add ([chg] (Tk *x) {
            while (!over) {
                yield_turn (x);
                shares ();
                if (chg && choose (64) == 63) {
                    Tk *y = tk[choose (tk.size ())];
                    if (y->spinner && !y->t->done) {
                        y->prio = range (1, 15);
                        changes++;
                        TR ("task %d changes priority of task %d to %d", x->t->id, y->t->id, y->prio);
                        // values beyond the range count as its end
                        hev_task_set_priority (y->t->t, y->prio == 15 && choose (2) ? (int)(15 + noise () % 3 * 1000) : y->prio);
                        // takes effect at its next turn: start counting after that
                        rebase ();
                    }
                }
            }
        }, prio (), true);
    // pairs that hand a token to each other
    static std::vector<Tk *> peer;
    static std::vector<int> token;
    peer.assign (2 * np, nullptr);
    token.assign (np, 0);
    for (int i = 0; i < np; i++)
        for (int s = 0; s < 2; s++)
            peer[2 * i + s] = add ([i, s] (Tk *x) {
                while (!over) {
                    if (token[i] == s) {
                        token[i] = !s;
                        Task *p = peer[2 * i + !s]->t;
                        if (!p->done)
                            hev_task_wakeup (p->t);
                    }
                    if (over)
                        break;
                    wait_io ();
                    turn (x);
                }
                token[i] = !s;
                Task *p = peer[2 * i + !s]->t;
                if (!p->done)
                    hev_task_wakeup (p->t);
            }, prio ());
    for (int i = 0; i < nz; i++) {
        uint32_t us = choose (3) ? 1 + noise () % 5000 : 1 + noise () % 100000;
        add ([us] (Tk *x) {
            while (!over) {
                sleep_turn (x, us);
                if (choose (4) == 0)
                    yield_turn (x);
            }
        }, prio ());
    }
    for (int i = 0; i < nc; i++) {
        uint32_t burst = 1 + choose (3);
        add ([burst, prio] (Tk *x) {
            uint32_t made = 0;
            while (!over) {
                for (uint32_t b = 0; b < burst && made < 150 && live_now () < 24; b++) {
                    uint32_t y = choose (12) ? choose (3) : noise () % 300;
                    made++;
                    add ([y] (Tk *z) { for (uint32_t k = 0; k < y; k++) yield_turn (z); }, prio ());
                }
                yield_turn (x);
            }
        }, prio ());
    }
    for (int i = 0; i < nr; i++)
        add ([] (Tk *x) {
            while (!over) {
                for (uint32_t k = choose (6); k; k--)
                    yield_turn (x);
                sleep_turn (x, 1 + noise () % 3000);
            }
        }, 0);
    // descriptors that become readable while others keep yielding
    static std::vector<FileP> ex;
    static std::vector<int> exfd;
    ex.clear ();
    exfd.clear ();
    at_cleanup ([] { ex.clear (); exfd.clear (); peer.clear (); token.clear (); });
    for (int i = 0; i < nf; i++) {
        int fd;
        FileP e = ext_pipe_in (&fd, 256);
        ex.push_back (e);
        exfd.push_back (fd);
        Tk *x = add ([fd] (Tk *x) {
            hev_task_add_fd (hev_task_self (), fd, POLLIN);
            for (;;) {
                char c;
                bool end = false, got = false;
                while (sim_read (fd, &c, 1) == 1)
                    got = true, end |= c == 'e';
                if (got)
                    x->due = x->due_turn = 0;
                if (end)
                    break;
                wait_io ();
                turn (x);
            }
        }, prio ());
        std::function<void ()> *again = new std::function<void ()> ();
        at_cleanup ([again] { delete again; });
        *again = [e, x, again] {
            if (x->t->done)
                return;
            bool end = over;
            if (end || !x->due) {
                if (!ext_write (e, end ? "e" : "x", 1))
                    end = false;
                x->due = x->due ? x->due : now ();
            }
            if (!end)
                after (100000 + noise () % 2000000, *again);
        };
        after (noise () % 1000000, *again);
    }
    on_idle = nullptr;
    sys_run ();
    for (int fd : exfd)
        sim_close (fd);
    sys_fini ();
    CHECK (ns < 2 || T > 40, "turns", "hardly any turns were given");
    char b[40];
    snprintf (b, sizeof b, "worst wait %d x live", (int)worst);
    probe (strdup (b));
    if (changes)
        probe ("priority changed while runnable");
    note ("%d yielders, %d pairs, %d sleepers, %d spawners, %d real-time: %llu turns, %zu live at most", ns, np, nz, nc, nr, (unsigned long long)T, maxlive);
    nontrivial ();
}
// tasks that join a system which has been running for long
SCENARIO ("P03", latecomers, 1)
{
    machine_random (choose (4));
    M.stall = 0;
    if (variant_has ("sched_clock"))
        M.tick = 0;
    at_cleanup ([] { for (auto x : tk) delete x; tk.clear (); });
    tk.clear ();
    T = 0;
    maxlive = 0;
    over = false;
    worst = 0;
    set_step_limit (3000000);
    quota = ~0ull;
    sys_init ();
    int n = range (1, 3), late = range (1, 4);
    uint64_t warm = choose (40) == 39 ? 6000 * n : 200 + choose (3) * 400;
    static uint64_t total, next, limit;
    static int left;
    static bool naps;
    naps = choose (2);
    total = 0;
    next = warm;
    left = late;
    limit = ~0ull;
    static std::function<void (Tk *)> spin;
    at_cleanup ([] { spin = nullptr; });
    spin = [] (Tk *x) {
        while (!over) {
            if (naps && choose (50) == 49)
                sleep_turn (x, 1 + noise () % 3000);
            else
                yield_turn (x);
            if (!naps)
                shares ();
            if (++total > limit)
                over = true;
            if (left && total >= next) {
                next = total + (choose (2) ? 0 : noise () % 200);
                add (spin, range (1, 15), true);
                if (--left == 0)
                    limit = total + 400;
            }
        }
    };
    for (int i = 0; i < n; i++)
        add (spin, choose (2) ? 15 : range (1, 15), true);
    sys_run ();
    sys_fini ();
    if (warm > 5000)
        probe ("joined after thousands of turns");
    note ("%d yielders, %d more after %llu turns, %llu turns", n, late, (unsigned long long)warm, (unsigned long long)total);
    nontrivial ();
}
// pure shares over a long time, real-time included
SCENARIO ("P03", share, 1)
{
    machine_random (choose (4));
    M.stall = 0;
    if (variant_has ("sched_clock"))
        M.tick = 0;
    at_cleanup ([] { for (auto x : tk) delete x; tk.clear (); });
    tk.clear ();
    T = 0;
    maxlive = 0;
    over = false;
    set_step_limit (3000000);
    quota = ~0ull;
    sys_init ();
    int n = range (2, 6);
    static uint64_t total, limit;
    total = 0;
    limit = 500 + choose (3) * 500;
    for (int i = 0; i < n; i++)
        add ([] (Tk *x) {
            while (!over) {
                yield_turn (x);
                shares ();
                if (++total > limit)
                    over = true;
            }
        }, choose (8) ? range (1, 15) : 0, true);
    sys_run ();
    sys_fini ();
    note ("%d yielders, %llu turns", n, (unsigned long long)total);
    nontrivial ();
}
}
