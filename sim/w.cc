#include "w.h"
namespace w {
std::vector<Task *> tasks;
uint64_t turn_no;
std::function<void ()> on_stuck;
static std::vector<std::function<void ()>> phases;
static size_t phase_next;
static FileP phase_pipe;
static int phase_fd = -1;
static bool ctl_exit;
static bool mt;

void reset ()
{
    for (auto t : tasks)
        delete t;
    tasks.clear ();
    phases.clear ();
    phase_next = 0;
    phase_pipe = nullptr;
    phase_fd = -1;
    calm = false;
    ctl_exit = false;
    mt = false;
    turn_no = 0;
    on_stuck = nullptr;
}
uint64_t ms (uint64_t x) { return x * 1000000ull; }
int sys_init ()
{
    static bool reg;
    (void)reg;
    if (!mt)
        at_cleanup ([] { reset (); });
    int r = hev_task_system_init ();
    CHECK (r == 0, "init", "hev_task_system_init failed without a fault");
    return r;
}
void sys_fini ()
{
    for (size_t i = 0; i < tasks.size (); i++)
        if (tasks[i]->thr == thread_self ())
            drop (tasks[i]);
    hev_task_system_fini ();
}
static void entry (void *p)
{
    Task *t = (Task *)p;
    CHECK (hev_task_self () == t->t, "self", "task %d: hev_task_self() is another task at its start", t->id);
    CHECK (!t->started, "exactly-once", "task %d: entry called a second time", t->id);
    t->started = true;
    mix (0x74, t->id);
    turn_no++;
    t->turns++;
    t->fn ();
    CHECK (hev_task_self () == t->t, "self", "task %d: hev_task_self() is another task at its end", t->id);
    t->done = true;
    TR ("task %d ends", t->id);
}
Task *prepare (std::function<void ()> fn, int prio, int stack)
{
    Task *t = new Task ();
    t->id = tasks.size ();
    t->thr = thread_self ();
    t->fn = std::move (fn);
    tasks.push_back (t);
    R.immune++;
    t->t = hev_task_new (stack);
    R.immune--;
    CHECK (t->t, "new", "hev_task_new failed without a fault");
    hev_task_ref (t->t);
    t->held = true;
    if (prio != HEV_TASK_PRIORITY_DEFAULT)
        hev_task_set_priority (t->t, prio);
    return t;
}
void start (Task *t)
{
    hev_task_run (t->t, entry, t);
}
Task *spawn (std::function<void ()> fn, int prio, int stack)
{
    Task *t = prepare (std::move (fn), prio, stack);
    start (t);
    return t;
}
void drop (Task *t)
{
    if (t->held) {
        t->held = false;
        hev_task_unref (t->t);
    }
}
bool live (Task *t) { return t->held && t->started && !t->done; }
Task *self ()
{
    HevTask *h = hev_task_self ();
    for (auto t : tasks)
        if (t->t == h && !t->done && t->started)
            return t;
    return nullptr;
}
static void resumed (Task *t)
{
    turn_no++;
    if (t) {
        mix (0x74, t->id);
        t->turns++;
        CHECK (hev_task_self () == t->t, "self", "task %d resumed with another task as current", t->id);
    }
    step ();
}
void yield ()
{
    Task *t = self ();
    hev_task_yield (HEV_TASK_YIELD);
    resumed (t);
}
void wait_io ()
{
    Task *t = self ();
    hev_task_yield (HEV_TASK_WAITIO);
    resumed (t);
}
int rprio ()
{
    if (choose (3) == 0)
        return HEV_TASK_PRIORITY_DEFAULT;
    return range (1, HEV_TASK_PRIORITY_MAX);
}
int rprio0 ()
{
    if (choose (3) == 0)
        return HEV_TASK_PRIORITY_DEFAULT;
    return range (0, HEV_TASK_PRIORITY_MAX);
}
void disturber (uint32_t rounds)
{
    Task *d = spawn ([rounds] {
        for (uint32_t i = 0; i < rounds; i++) {
            uint32_t k = choose (tasks.size () + 1);
            if (k < tasks.size ()) {
                Task *t = tasks[k];
                if (live (t) && t->pokable && t->thr == thread_self ()) {
                    TR ("disturber wakes task %d", t->id);
                    t->pokes++;
                    fault (F_SPURIOUS_WAKE);
                    hev_task_wakeup (t->t);
                }
            }
            switch (choose (3)) {
            case 0: yield (); break;
            case 1: hev_task_usleep (1 + noise () % 3000); break;
            case 2: hev_task_sleep (range (1, 20)); break;
            }
        }
    }, rprio ());
    d->pokable = false;
}
void maybe_disturbers ()
{
    uint32_t n = choose (4);
    if (n == 3)
        n = 0;
    for (uint32_t i = 0; i < n; i++)
        disturber (range (1, 25));
}
void at_quiet (std::function<void ()> fn) { phases.push_back (std::move (fn)); }

static void stuck ()
{
    std::string s;
    for (auto t : tasks)
        if (t->started && !t->done && t->pokable && s.size () < 300) {
            char b[100];
            snprintf (b, sizeof b, " task %d%s%s", t->id, *t->what ? " in " : "", t->what);
            s += b;
        }
    if (on_stuck)
        on_stuck ();
    fail ("stuck", "nothing can make progress any more but tasks wait forever:%s", s.c_str ());
}
void mt_begin ()
{
    at_cleanup ([] { reset (); });
    mt = true;
    on_idle = [] () -> bool { stuck (); return false; };
}
void pause (uint64_t ns)
{
    uint64_t t = now () + ns;
    at (t, [] {});
    thread_block ([t] { return now () >= t; });
}
void sys_run ()
{
    Task *ctl = nullptr;
    if (!phases.empty ()) {
        phase_pipe = ext_pipe_in (&phase_fd, 4096);
        ctl = spawn ([] {
            R.immune++;
            hev_task_add_fd (hev_task_self (), phase_fd, POLLIN);
            R.immune--;
            size_t done = 0;
            while (done < phases.size ()) {
                char c;
                while (sim_read (phase_fd, &c, 1) != 1)
                    wait_io ();
                phases[done] ();
                calm = false;
                done++;
            }
            hev_task_del_fd (hev_task_self (), phase_fd);
        });
        ctl->pokable = false;
    }
    if (!mt) on_idle = [ctl] () -> bool {
        if (ctl && !ctl->done && phase_next < phases.size ()) {
            TR ("quiet: phase %zu", phase_next);
            phase_next++;
            calm = true;
            char c = 1;
            ext_write (phase_pipe, &c, 1);
            return true;
        }
        stuck ();
        return false;
    };
    hev_task_system_run ();
    if (!mt)
        on_idle = nullptr;
    for (auto t : tasks)
        if (t->must_end && t->started && t->thr == thread_self ())
            CHECK (t->done, "return", "hev_task_system_run returned although task %d has not ended", t->id);
    if (phase_fd >= 0) {
        sim_close (phase_fd);
        phase_fd = -1;
    }
    phases.clear ();
    phase_next = 0;
}
void world_ends ()
{
    uint64_t t;
    while (next_event_time (&t)) {
        jump_to_next_event ();
        step ();
    }
}
void Leak::check (const char *where)
{
    Ledger n = ledger ();
    CHECK (n.blocks == l.blocks, "leak", "%s: %ld memory blocks not released:%s", where, (long)(n.blocks - l.blocks), ledger_detail ().c_str ());
    CHECK (n.maps == l.maps, "leak", "%s: %ld mapped pages not released", where, (long)(n.maps - l.maps));
    CHECK (n.fds == l.fds, "leak", "%s: %ld descriptors not closed:%s", where, (long)(n.fds - l.fds), ledger_detail ().c_str ());
    CHECK (n.signals == l.signals, "leak", "%s: signal handling is not as before", where);
    CHECK (n.altstacks == l.altstacks, "leak", "%s: %ld alternate signal stacks still in use", where, (long)(n.altstacks - l.altstacks));
}
}
