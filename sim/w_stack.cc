// P25 task stacks: as large as asked for, not shared, overruns noticed.
#include "w.h"
#include "internal.h"
#include "kernel.h"
#include <alloca.h>
extern "C" int sim_sigaction (int, const struct sigaction *, struct sigaction *);
using namespace w;
namespace p25 {
enum What { NONE, OVERRUN, WILD };
static What fault_is;
static int priors[2];          // what was installed for both signals before: 0 nothing, 1 a handler, 2 ignored
static int delivered;          // signal being handled
static uintptr_t bad;
#define prior priors[delivered == SIGBUS]
static void over (const char *how)
{
    TR ("process ends: %s, wrote \"%.40s\"", how, diag.c_str ());
    if (fault_is == OVERRUN)
        CHECK (!diag.empty (), "diagnostic", "a stack overrun ends the process without a diagnostic (%s)", how);
    else
        CHECK (diag.empty (), "diagnostic", "an invalid access elsewhere is reported as a stack overrun");
    nontrivial ();
    end_run ();
}
template <int S> static void user_handler (int sig, siginfo_t *si, void *)
{
    CHECK (sig == S, "handler", "the handler of the program for another signal is called");
    CHECK (delivered, "handler", "the handler of the program runs without a fault");
    CHECK (sig == delivered && si && (uintptr_t)si->si_addr == bad, "handler", "the handler of the program is called for another fault");
    probe ("handler of the program reached");
    over ("handler of the program");
}
static bool sa_is_user (struct sigaction &a) { return a.sa_sigaction == user_handler<SIGSEGV> || a.sa_sigaction == user_handler<SIGBUS>; }
static void deliver (int sig, siginfo_t *si, void *uc)
{
    struct sigaction a = acts[sig];
    TR ("signal %d for address %s", sig, fault_is == OVERRUN ? "below a stack" : "elsewhere");
    delivered = sig;
    bad = (uintptr_t)si->si_addr;
    if (a.sa_handler == SIG_DFL || a.sa_handler == SIG_IGN) {
        CHECK (prior != 1, "handler", "the handler of the program is not called");
        over ("default action");
    }
    if (fault_is == OVERRUN && !(prior == 1 && sa_is_user (a))) {
        // without a second stack there is no room to handle the signal
        auto it = alts.find (thread_self ());
        bool have = it != alts.end () && it->second.ss_sp && !(it->second.ss_flags & SS_DISABLE);
        CHECK (have && (a.sa_flags & SA_ONSTACK), "diagnostic", "the overrun of a stack cannot be handled: there is no signal stack");
        check_mem (it->second.ss_sp, it->second.ss_size, "signal stack");
    }
    int e = errno;
    a.sa_sigaction (sig, si, uc);
    errno = e;
    // back to the instruction that faults again
    CHECK (acts[sig].sa_handler == SIG_DFL, "handler", "the process goes on at the instruction that faults");
    CHECK (prior != 1, "handler", "the handler of the program is not called");
    over ("default action");
}
static void on_fault (int sig, siginfo_t *si, void *uc)
{
    if (fault_is == NONE)
        return;                // nobody asked for this one
    if (!delivered)
        deliver (sig, si, uc);
    // handling it faults: the way the library passes on to the default action
    CHECK (prior != 1, "handler", "handling a fault fails");
    over ("killed");
}
static void on_abort (const char *why)
{
    if (fault_is == NONE)
        return;
    if (variant_has ("mmap"))
        over (why);
    probe ("overrun noticed at the end of the task");
    nontrivial ();
    TR ("process ends: %s", why);
    end_run ();
}
// ---- stacks in use
static void __attribute__ ((noinline)) use (uint32_t n, uint32_t rounds, uint8_t c)
{
    uint8_t *p = (uint8_t *)alloca (n);
    memset (p, c, n);
    for (uint32_t r = 0; r < rounds; r++) {
        switch (choose (3)) {
        case 0: case 1: yield (); break;
        case 2: hev_task_sleep (1 + choose (3)); turn_no++; break;
        }
        for (uint32_t i = 0; i < n; i += 1 + (i > 64 && i < n - 64) * 16)
            CHECK (p[i] == c, "stack", "the stack of a task changed under it");
    }
}
// touch all that was asked for, without calling anything
static void __attribute__ ((noinline)) touch (uint32_t n)
{
    volatile uint8_t *sp = (volatile uint8_t *)__builtin_frame_address (0);
    for (uint32_t i = 512; i < n; i += 64)
        sp[-(long)i] = (uint8_t)(i >> 6);
    bool ok = true;
    for (uint32_t i = 512; i < n; i += 64)
        ok &= sp[-(long)i] == (uint8_t)(i >> 6);
    CHECK (ok, "stack", "the stack of a task does not keep what is put there");
}
static void __attribute__ ((noinline)) overrun (uint32_t stride)
{
    volatile uint8_t *sp = (volatile uint8_t *)__builtin_frame_address (0);
    const char *own = in_heap ((void *)sp) ? block_start ((void *)sp) : map_start ((void *)sp);
    CHECK (own, "stack", "a task runs on memory that is no stack");
    fault_is = OVERRUN;
    fault (F_STACK_OVERRUN);
    uint32_t i = 512;
    if (in_heap ((void *)sp)) {
        if (stride > 4)
            stride = 4;
        // beyond what was asked for, but not always all of what is there
        own += choose (4) * 1000;
        for (; sp - i >= (volatile uint8_t *)own; i += stride)
            sp[-(long)i] = 0x33;
        return;
    }
    for (;; i += stride) {
        const char *a = (const char *)sp - i;
        int st = page_state (a);
        CHECK (st == 3 || st == 2 || (st == 1 && map_start (a) == own), "stack", "a stack overrun reaches %s", st == 1 ? "memory of others" : "memory nobody protects");
        *(volatile char *)a = 0x33;
    }
}
static void wild ()
{
    static char *volatile p = (char *)16;
    fault_is = WILD;
    fault (F_WILD_ACCESS);
    if (choose (3) == 2) {
        siginfo_t si;
        memset (&si, 0, sizeof si);
        si.si_signo = SIGBUS;
        si.si_addr = p;
        deliver (SIGBUS, &si, NULL);
    }
    *p = 1;
}
struct Plan { int thr, cyc, what; bool outside, refusals; };
static Plan plan;
static void plain (void *p)
{
    hev_task_yield (HEV_TASK_YIELD);
    if (p)
        overrun (64);
}
static void cycle (int thr, int cyc)
{
    static const int sizes[] = { -1, 16384, 20000, 32768, 40001, 65536, 100000, 150000 };
    if (plan.refusals && choose (3) == 2) {
        // a start that meets a refusal fails as a whole or does not matter
        M.sys_fail_at = R.syscalls_fallible + choose (6);
        M.sys_fail_n = 1;
        int r = hev_task_system_init ();
        M.sys_fail_at = -1;
        if (r < 0)
            sys_init ();
    } else
        sys_init ();
    uint32_t nt = 1 + choose (5);
    bool mine = plan.thr == thr && plan.cyc == cyc && !plan.outside;
    uint32_t bad_one = mine ? choose (nt) : nt;
    for (uint32_t i = 0; i < nt; i++) {
        int size = choose (3) ? 16384 + noise () % 120000 : pick (sizes);
        if (choose (6) == 5) {
            // a small stack
            HevTask *t = hev_task_new (5000 + noise () % 9000);
            CHECK (t, "new", "creating a task failed");
            hev_task_run (t, plain, (void *)(uintptr_t)(i == bad_one && plan.what == OVERRUN));
            if (i == bad_one && plan.what == OVERRUN)
                bad_one = nt;
            continue;
        }
        if (plan.refusals && choose (4) == 3) {
            M.sys_fail_at = R.syscalls_fallible;
            M.sys_fail_n = 1;
            HevTask *t = hev_task_new (size);
            M.sys_fail_at = -1;
            if (t)
                hev_task_run (t, plain, (void *)(uintptr_t)(i == bad_one && plan.what == OVERRUN));
            if (t && i == bad_one)
                continue;
        }
        uint32_t rounds = choose (12), full = size < 0 ? 8192 : size;
        spawn ([=] {
            if (full > 16384)
                use (1 + noise () % (full - 12288), rounds, (uint8_t)noise ());
            else
                for (uint32_t r = 0; r < rounds; r++)
                    yield ();
            if (choose (2))
                touch (full - 768);         // some for the way into the task
            if (i == bad_one) {
                static const uint32_t st[] = { 64, 1, 16, 256, 1024, 4096 };
                plan.what == WILD ? wild () : overrun (pick (st));
            }
            uint32_t more = choose (4);
            for (uint32_t r = 0; r < more; r++)
                yield ();
        }, rprio (), size);
    }
    sys_run ();
    sys_fini ();
    // on a stack that is checked when it is released
    CHECK (!mine || plan.what == WILD, "overrun", "a task overran its stack and nobody noticed");
}
static void worker (int thr, int cycles)
{
    static const uint64_t waits[] = { 0, 1000, 100000, 5000000, 40000000 };
    for (int i = 0; i < cycles; i++) {
        uint64_t d = pick (waits);
        if (d)
            pause (1 + noise () % d);
        if (plan.thr == thr && plan.cyc == i && plan.outside)
            wild ();
        cycle (thr, i);
    }
}
SCENARIO_MT ("P25", stacks, 10)
{
    machine_random (choose (4));
    mt_begin ();
    M.alloc_fail_rate = M.sys_fail_rate = 0;
    M.alloc_fail_at = M.sys_fail_at = -1;
    M.preempt = choose (3) ? 10 + choose (200) : 0;
    M.adjacent = choose (4) != 3;
    set_step_limit (400000);
    fault_is = NONE;
    delivered = 0;
    Leak lk;
    for (int i = 0; i < 2; i++) {
        priors[i] = choose (3);
        struct sigaction sa;
        memset (&sa, 0, sizeof sa);
        if (priors[i] == 1) {
            sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
            sa.sa_sigaction = i ? user_handler<SIGBUS> : user_handler<SIGSEGV>;
        } else if (priors[i] == 2)
            sa.sa_handler = SIG_IGN;
        sim_sigaction (i ? SIGBUS : SIGSEGV, &sa, NULL);
    }
    int nt = 1 + choose (3), cycles = 1 + choose (2);
    plan.thr = choose (nt + 1);        // nobody, sometimes
    plan.cyc = choose (cycles);
    plan.what = choose (4) == 3 ? WILD : OVERRUN;
    plan.outside = plan.what == WILD && choose (4) == 3;
    plan.refusals = nt == 1 && choose (2);     // counted over all threads
    Ledger l0 = ledger ();
    fault_hook = on_fault;
    abort_hook = on_abort;
    std::vector<int> ids;
    for (int i = 1; i < nt; i++)
        ids.push_back (thread_spawn ([=] { worker (i, cycles); }));
    worker (0, cycles);
    for (int id : ids)
        thread_join (id);
    Ledger l1 = ledger ();
    CHECK (l0.signals == l1.signals, "handler", "the handlers of the program are not put back");
    CHECK (l0.altstacks == l1.altstacks, "handler", "a signal stack is left behind");
    nontrivial ();
}
}
