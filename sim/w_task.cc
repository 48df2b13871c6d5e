// P01 task life cycle, P02 wakeups and readiness, P03 fairness, P07 join.
#include "w.h"
#include <algorithm>
#include <set>
using namespace w;

// ===================================================================== P01
namespace p01 {
enum St { NEW, RUN, WAIT, SLEEP, ENDED };
struct X {
    HevTask *h;
    int id;
    int runs = 0, starts = 0, ends = 0;
    St st = NEW;
    uint64_t deadline = 0;     // while SLEEP
    int refs = 1;              // references we know of, incl. the scheduler's
    uint64_t secret;
    bool exited_early = false;
    int stack;
    void *data;
    bool busy = false;         // someone inspects it
};
static std::vector<X *> xs;
static uint32_t budget;        // spawns left
static int alive;              // run and not ended
static X *cur_x;

static void ent (void *p);
static void check_all (const char *where)
{
    for (auto x : xs) {
        if (x->refs == 0)
            continue;
        CHECK (mem_live (x->h), "lifetime", "task %d was released although it is still referenced (%s)", x->id, where);
        HevTaskState s = hev_task_get_state (x->h);
        switch (x->st) {
        case NEW: case ENDED:
            CHECK (s == HEV_TASK_STOPPED, "state", "task %d has %s but its state reads %d", x->id, x->st == NEW ? "not been run" : "ended", s);
            break;
        case RUN:
            CHECK (s == HEV_TASK_RUNNING, "state", "task %d is runnable but its state reads %d", x->id, s);
            break;
        case WAIT:
            CHECK (s == HEV_TASK_WAITING, "state", "task %d waits but its state reads %d", x->id, s);
            break;
        case SLEEP:
            CHECK (s == HEV_TASK_RUNNING || s == HEV_TASK_WAITING, "state", "task %d sleeps but its state reads %d", x->id, s);
            if (s == HEV_TASK_RUNNING)
                CHECK (now () >= x->deadline, "state", "task %d runnable before its sleep is over", x->id);
            break;
        }
        if (x->st != NEW)
            CHECK (hev_task_get_data (x->h) == x->data, "data", "task %d: hev_task_get_data is not what it was given", x->id);
    }
}
static void unref (X *x)
{
    bool last = --x->refs == 0;
    HevTask *h = x->h;
    hev_task_unref (h);
    if (last && !variant_has ("slice"))
        CHECK (!mem_live (h), "lifetime", "task %d was not released with its last reference", x->id);
    else if (!last)
        CHECK (mem_live (h), "lifetime", "task %d was released although it is still referenced", x->id);
}
static void run_x (X *x)
{
    x->data = &xs;
    x->data = x;
    x->runs++;
    x->st = RUN;
    alive++;
    hev_task_run (x->h, ent, x);
    if (choose (8) == 0) {
        // running a running task again must not do anything
        hev_task_run (x->h, ent, NULL);
        probe ("run of a running task");
    }
}
static X *new_x ()
{
    static const int sz[] = { -1, 16384, 20000, 32768, 65536, 131072, 40001 };
    X *x = new X ();
    x->id = xs.size ();
    x->stack = pick (sz);
    x->h = hev_task_new (x->stack);
    CHECK (x->h, "new", "hev_task_new failed without a fault");
    x->secret = noise ();
    for (auto o : xs)
        CHECK (o->refs == 0 || o->h != x->h, "identity", "a new task has the handle of a live one");
    CHECK (hev_task_get_state (x->h) == HEV_TASK_STOPPED, "state", "a new task is not stopped");
    if (choose (3))
        hev_task_set_priority (x->h, choose (2) ? rprio () : rprio0 ());
    xs.push_back (x);
    return x;
}
static void after_switch (X *x)
{
    cur_x = x;
    mix (0x74, x->id);
    step ();
    CHECK (hev_task_self () == x->h, "self", "task %d resumed but hev_task_self() is another task", x->id);
    x->st = RUN;
}
static int depth_fn (X *x, int depth, uint64_t tag);
static void one_op (X *x)
{
    switch (choose (13)) {
    case 0: case 1: case 2:
        hev_task_yield (HEV_TASK_YIELD);
        after_switch (x);
        break;
    case 12:
        // a task that has not ended cannot be run anew
        for (uint32_t k = choose (xs.size ()), i = 0; i < xs.size (); i++) {
            X *o = xs[(k + i) % xs.size ()];
            if (o->st == RUN || o->st == WAIT || o->st == SLEEP) {
                hev_task_run (o->h, ent, NULL);
                probe (o->st == RUN ? "run of a running task" : "run of a waiting task");
                break;
            }
        }
        break;
    case 3: case 4: {
        // wait for an explicit wakeup: somebody runnable must remember to do it
        bool other = false;
        for (auto o : xs)
            if (o != x && (o->st == RUN || o->st == SLEEP))
                other = true;
        if (!other)
            break;
        x->st = WAIT;
        hev_task_yield (HEV_TASK_WAITIO);
        CHECK (x->st == RUN, "wakeup", "task %d resumed from a wait nobody ended", x->id);
        after_switch (x);
        break; }
    case 5: {
        unsigned us = 1 + noise () % 5000;
        x->deadline = now () + us * 1000ull;
        x->st = SLEEP;
        unsigned r = hev_task_usleep (us);
        CHECK (r == 0, "sleep", "task %d: sleep of %u us reports %u us left although nobody woke it", x->id, us, r);
        CHECK (now () >= x->deadline, "sleep", "task %d: sleep ended early", x->id);
        after_switch (x);
        break; }
    case 6: case 7:
        if (budget) {
            budget--;
            X *n = new_x ();
            if (choose (3) == 0) {
                hev_task_ref (n->h);
                n->refs++;
            }
            if (choose (6)) {
                run_x (n);
            } else if (choose (2)) {
                // never run
                unref (n);
            } else {
                hev_task_ref (n->h);
                n->refs++;
                run_x (n);
            }
        }
        break;
    case 8:
        // wake somebody who waits
        for (uint32_t k = choose (xs.size ()), i = 0; i < xs.size (); i++) {
            X *o = xs[(k + i) % xs.size ()];
            if (o->st == WAIT) {
                o->st = RUN;
                hev_task_wakeup (o->h);
                CHECK (hev_task_get_state (o->h) == HEV_TASK_RUNNING, "state", "a woken task is not runnable");
                break;
            }
        }
        break;
    case 9:
        // take or drop an extra reference to somebody
        for (uint32_t k = choose (xs.size ()), i = 0; i < xs.size (); i++) {
            X *o = xs[(k + i) % xs.size ()];
            if (o->refs == 0)
                continue;
            int sched = o->st == RUN || o->st == WAIT || o->st == SLEEP;
            if (o->refs > sched && choose (2)) {
                if (o->st == NEW && o->refs == 1)
                    continue;
                unref (o);
            } else {
                hev_task_ref (o->h);
                o->refs++;
            }
            break;
        }
        break;
    case 10:
        // a task that ended and is still referenced can be run again
        for (uint32_t k = choose (xs.size ()), i = 0; i < xs.size (); i++) {
            X *o = xs[(k + i) % xs.size ()];
            if (((o->st == ENDED && o->refs >= 1) || (o->st == NEW && o->refs >= 1)) && o->runs < 3) {
                if (o->st == ENDED) {
                    hev_task_ref (o->h);       // the scheduler's own
                    o->refs++;
                    probe ("task run again after it ended");
                }
                run_x (o);
                break;
            }
        }
        break;
    case 11:
        hev_task_set_priority (x->h, rprio0 ());
        break;
    }
    check_all ("after an operation");
}
static void finish (X *x)
{
    // leave nobody waiting for a wakeup that will never come
    bool other = false;
    for (auto o : xs)
        if (o != x && (o->st == RUN || o->st == SLEEP))
            other = true;
    if (!other)
        for (auto o : xs)
            if (o->st == WAIT) {
                o->st = RUN;
                hev_task_wakeup (o->h);
            }
    x->st = ENDED;
    x->ends++;
    x->refs--;          // the scheduler's reference goes when it stopped
    alive--;
}
static int depth_fn (X *x, int depth, uint64_t tag)
{
    volatile uint64_t loc[8];
    double fp = (double)(tag & 0xffff) + 0.5;
    uint64_t acc = tag;
    int n = range (0, 3), sum = depth;
    for (int i = 0; i < 8; i++)
        loc[i] = tag * (i + 3);
    for (int i = 0; i < n; i++) {
        acc = acc * 31 + i;
        one_op (x);
        for (int k = 0; k < 8; k++)
            CHECK (loc[k] == tag * (k + 3), "locals", "task %d: a local variable changed across a switch", x->id);
        CHECK (fp == (double)(tag & 0xffff) + 0.5, "locals", "task %d: a floating point local changed across a switch", x->id);
    }
    if (depth > 0 && choose (2))
        sum += depth_fn (x, depth - 1, tag ^ (acc | 1));
    for (int k = 0; k < 8; k++)
        CHECK (loc[k] == tag * (k + 3), "locals", "task %d: a local variable changed in a caller's frame", x->id);
    if (depth == 0 && choose (8) == 0) {
        finish (x);
        x->exited_early = true;
        TR ("task %d exits early", x->id);
        probe ("early exit");
        hev_task_exit ();
        fail ("exit", "hev_task_exit returned");
    }
    return sum;
}
static void ent (void *p)
{
    CHECK (p, "data", "the entry function received data of a call that must have no effect");
    X *x = (X *)p;
    x->starts++;
    CHECK (x->starts <= x->runs, "exactly-once", "task %d started %d times but was run %d times", x->id, x->starts, x->runs);
    CHECK (((uintptr_t)__builtin_frame_address (0) & 15) == 0, "stack", "task %d starts on a misaligned stack", x->id);
    after_switch (x);
    TR ("task %d starts", x->id);
    depth_fn (x, range (0, 3), x->secret);
    finish (x);
    TR ("task %d ends", x->id);
}
SCENARIO ("P01", lifecycle, 6)
{
    machine_random (choose (3));
    xs.clear ();
    alive = 0;
    at_cleanup ([] { for (auto x : xs) delete x; xs.clear (); reset (); });
    Leak lk;
    int cycles = 1 + (choose (5) == 0);
    for (int c = 0; c < cycles; c++) {
        sys_init ();
        on_idle = [] () -> bool {
            for (auto x : xs)
                CHECK (x->st == NEW || x->st == ENDED, "stuck", "task %d never runs again although it should (state %d)", x->id, x->st);
            fail ("stuck", "the system does not return although every task has ended");
        };
        int rounds = 1 + choose (3);
        for (int r = 0; r < rounds; r++) {
            budget = range (0, 24);
            int n = range (0, 5);
            for (int i = 0; i < n; i++) {
                X *x = new_x ();
                if (choose (3)) {
                    hev_task_ref (x->h);
                    x->refs++;
                }
                run_x (x);
            }
            check_all ("before run");
            hev_task_system_run ();
            CHECK (alive == 0, "return", "hev_task_system_run returned with %d tasks not ended", alive);
            for (auto x : xs)
                CHECK (x->starts == x->runs && x->ends == x->runs, "exactly-once", "task %d: run %d times, started %d, ended %d", x->id, x->runs, x->starts, x->ends);
            CHECK (hev_task_self () == NULL, "self", "a current task remains after the system returned");
            check_all ("after run");
            if (n == 0)
                probe ("empty system run");
        }
        for (auto x : xs)
            while (x->refs)
                unref (x);
        hev_task_system_fini ();
        on_idle = nullptr;
        note ("%zu tasks, %d rounds", xs.size (), rounds);
        lk.check ("after fini");
        for (auto x : xs)
            delete x;
        xs.clear ();
    }
    nontrivial ();
}
// many tasks, deep stacks
SCENARIO ("P01", many, 1)
{
    machine_random (choose (2));
    Leak lk;
    sys_init ();
    int n = range (20, 300), sum = 0, want = 0;
    for (int i = 0; i < n; i++) {
        int k = range (0, 3);
        want += k + 1;
        spawn ([k, i, &sum] {
            char big[3000];
            memset (big, i, sizeof big);
            for (int j = 0; j < k; j++) {
                if ((i + j) % 7 == 0)
                    hev_task_usleep (1 + (i * 37) % 900);
                else
                    hev_task_yield (HEV_TASK_YIELD);
                sum++;
                for (size_t b = 0; b < sizeof big; b += 97)
                    CHECK (big[b] == (char)i, "locals", "task %d: stack content changed across a switch", i);
            }
            sum++;
        }, choose (4) ? HEV_TASK_PRIORITY_DEFAULT : rprio0 (), choose (2) ? -1 : 16384);
    }
    sys_run ();
    CHECK (sum == want, "exactly-once", "%d task steps happened instead of %d", sum, want);
    sys_fini ();
    lk.check ("after fini");
    note ("%d tasks", n);
    nontrivial ();
}
}
