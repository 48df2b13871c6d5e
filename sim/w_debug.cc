// P26: what the debugging functions (builds with ENABLE_DEBUG) show.
#include "w.h"
#include "internal.h"
#include <cstdio>
#include <map>
using namespace w;

extern "C" {
unsigned int _hev_task_system_get_total_task_count (void) __attribute__ ((weak));
unsigned int _hev_task_system_get_running_task_count (void) __attribute__ ((weak));
HevTask *_hev_task_system_get_current_task (void) __attribute__ ((weak));
void *_hev_task_system_get_context (void) __attribute__ ((weak));
void _hev_task_system_dump_all_tasks (void) __attribute__ ((weak));
}

namespace p26 {
struct X {
    HevTask *h;
    int id, refs = 1, prio;
    bool run = false, ended = false, waits = false, sleeps = false;
};
struct Shown { std::string state, task; long ref = -1; int next = -1; const void *entry = nullptr, *data = nullptr, *lo = nullptr, *hi = nullptr; };
static std::vector<X *> xs;
static void *context;
static void ent (void *p);

static std::map<const void *, Shown> listing ()
{
    std::map<const void *, Shown> r;
    sim::out_text.clear ();
    _hev_task_system_dump_all_tasks ();
    Shown *s = nullptr;
    size_t at = 0;
    const std::string &o = sim::out_text;
    while (at < o.size ()) {
        size_t e = o.find ('\n', at);
        if (e == std::string::npos)
            e = o.size ();
        std::string l = o.substr (at, e - at);
        at = e + 1;
        void *p, *q;
        char w[32];
        long n;
        int a, b;
        if (sscanf (l.c_str (), " Task : %p", &p) == 1 || sscanf (l.c_str (), " Task: %p", &p) == 1) {
            CHECK (!r.count (p), "once", "the list of tasks shows a task twice");
            s = &r[p];
        } else if (!s) {
        } else if (sscanf (l.c_str (), " State : %31s", w) == 1)
            s->state = w;
        else if (sscanf (l.c_str (), " RefCount : %ld", &n) == 1)
            s->ref = n;
        else if (sscanf (l.c_str (), " Priority : %d -> %d", &a, &b) == 2)
            s->next = b;
        else if (sscanf (l.c_str (), " Entry : %p [%p]", &p, &q) == 2)
            s->entry = p, s->data = q;
        else if (sscanf (l.c_str (), " Stack : %p - %p", &p, &q) == 2)
            s->lo = p, s->hi = q;
    }
    return r;
}
static void look (const char *when)
{
    unsigned total = 0, running = 0, exist = 0;
    auto l = listing ();
    for (auto x : xs) {
        if (!x->refs) {
            bool reused = false;
            for (auto y : xs)
                reused |= y->refs && y->h == x->h;
            CHECK (reused || !l.count (x->h), "gone", "the list of tasks shows task %d although it was released (%s)", x->id, when);
            continue;
        }
        exist++;
        CHECK (l.count (x->h), "listed", "the list of tasks does not show task %d (%s)", x->id, when);
        Shown &s = l[x->h];
        bool wakes = x->sleeps && hev_task_get_state (x->h) == HEV_TASK_RUNNING;
        const char *st = !x->run || x->ended ? "STOPPED" : (x->waits || x->sleeps) && !wakes ? "WAITING" : "RUNNING";
        CHECK (s.state == st, "state", "the list of tasks shows task %d as %s, it is %s (%s)", x->id, s.state.c_str (), st, when);
        CHECK (s.ref == x->refs, "refs", "the list of tasks shows %ld references of task %d, there are %d (%s)", s.ref, x->id, x->refs, when);
        CHECK (s.next == x->prio, "priority", "the list of tasks shows priority %d for task %d, it is %d (%s)", s.next, x->id, x->prio, when);
        if (x->run)
            CHECK (s.data == x && s.entry == (void *)ent, "entry", "the list of tasks shows another entry or other data for task %d (%s)", x->id, when);
        CHECK (s.lo < s.hi, "stack", "the list of tasks shows no stack for task %d (%s)", x->id, when);
        for (auto &o : l)
            CHECK (o.first == x->h || o.second.hi <= s.lo || o.second.lo >= s.hi, "stack", "the list of tasks shows overlapping stacks (%s)", when);
        total += x->run && !x->ended;
        running += st[0] == 'R';
    }
    CHECK (l.size () == exist, "invented", "the list of tasks shows %zu tasks, there are %u (%s)", l.size (), exist, when);
    CHECK (_hev_task_system_get_total_task_count () == total, "total", "%u tasks are counted, there are %u (%s)", _hev_task_system_get_total_task_count (), total, when);
    CHECK (_hev_task_system_get_running_task_count () == running, "running", "%u runnable tasks are counted, there are %u (%s)", _hev_task_system_get_running_task_count (), running, when);
    CHECK (_hev_task_system_get_context () == context, "context", "the task system is another one (%s)", when);
    if (exist > 3)
        nontrivial ();
}
static X *add ()
{
    X *x = new X ();
    x->id = xs.size ();
    x->h = hev_task_new (choose (2) ? -1 : 16384 + (int)(noise () % 5) * 3000);
    CHECK (x->h, "new", "hev_task_new failed without a fault");
    x->prio = HEV_TASK_PRIORITY_DEFAULT;
    if (choose (2)) {
        x->prio = rprio0 ();
        hev_task_set_priority (x->h, x->prio);
    }
    xs.push_back (x);
    if (choose (5)) {
        x->run = true;
        hev_task_run (x->h, ent, x);
    }
    return x;
}
static void resumed (X *x)
{
    x->waits = x->sleeps = false;
    mix (0x74, x->id);
    step ();
    CHECK (_hev_task_system_get_current_task () == x->h, "current", "task %d runs but another one is shown as current", x->id);
}
static void ent (void *p)
{
    X *x = (X *)p;
    resumed (x);
    int n = choose (12);
    for (int i = 0; i < n; i++) {
        X *y = xs[choose (xs.size ())];
        switch (choose (9)) {
        case 0: hev_task_yield (HEV_TASK_YIELD); resumed (x); break;
        case 1: look ("in a task"); break;
        case 2:
            if (xs.size () < 14)
                add ();
            break;
        case 3:
            if (y->refs && y->refs < 6) {
                hev_task_ref (y->h);
                y->refs++;
            }
            break;
        case 4:
            if (y->refs > (y->run && !y->ended)) {
                y->refs--;
                hev_task_unref (y->h);
            }
            break;
        case 5:
            if (y->refs) {
                y->prio = rprio0 ();
                hev_task_set_priority (y->h, y->prio);
            }
            break;
        case 6:
            x->sleeps = true;
            hev_task_usleep (1 + noise () % 3000);
            resumed (x);
            break;
        case 7: {
            // only if somebody is sure to end it
            bool other = false;
            for (auto o : xs)
                other |= o != x && o->refs && o->run && !o->ended && !o->waits;
            if (!other)
                break;
            x->waits = true;
            hev_task_yield (HEV_TASK_WAITIO);
            resumed (x);
            break; }
        case 8:
            if (y->refs && y->run && !y->ended) {
                y->waits = false;
                if (!y->sleeps)
                    hev_task_wakeup (y->h);
            }
            break;
        }
    }
    for (auto y : xs)
        if (y->refs && y->waits) {
            y->waits = false;
            hev_task_wakeup (y->h);
        }
    if (choose (3) == 0)
        look ("at the end of a task");
    x->ended = true;
    x->refs--;
    if (choose (4) == 0)
        hev_task_exit ();
}
SCENARIO ("P26", shown, 1)
{
    if (!_hev_task_system_dump_all_tasks)
        return;
    machine_random (choose (3));
    xs.clear ();
    at_cleanup ([] { for (auto x : xs) delete x; xs.clear (); });
    Leak lk;
    sys_init ();
    context = _hev_task_system_get_context ();
    CHECK (context, "context", "no task system is shown after its start");
    int rounds = range (1, 3);
    for (int r = 0; r < rounds; r++) {
        look ("before running");
        int n = range (1, 5);
        for (int i = 0; i < n; i++)
            add ();
        look ("before running");
        hev_task_system_run ();
        for (auto x : xs)
            CHECK (!x->run || x->ended, "end", "the system returned although task %d has not ended", x->id);
        CHECK (!_hev_task_system_get_current_task (), "current", "a current task is shown after all have ended");
        look ("after running");
    }
    for (auto x : xs)
        while (x->refs) {
            x->refs--;
            hev_task_unref (x->h);
            if (choose (4) == 0)
                look ("while releasing");
        }
    look ("at the end");
    sys_fini ();
    lk.check ("after the listing");
}
}
