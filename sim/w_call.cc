// P21 calls on a separate stack.
#include "w.h"
#include "internal.h"
#include <hev-task-call.h>
#include <hev-task-mutex.h>
#include <hev-task-io.h>
#include <alloca.h>
#include <sys/socket.h>
using namespace w;
// void *regs_jump (call, entry, in[6], out[6]): hev_task_call_jump with known values in the callee-saved registers
extern "C" void *regs_jump (HevTaskCall *, HevTaskCallEntry, const uint64_t *, uint64_t *);
asm (".text\n"
     ".globl regs_jump\n"
     ".type regs_jump, @function\n"
     "regs_jump:\n"
     "pushq %rbp\n"
     "pushq %rbx\n"
     "pushq %r12\n"
     "pushq %r13\n"
     "pushq %r14\n"
     "pushq %r15\n"
     "pushq %rcx\n"
     "movq (%rdx), %rbx\n"
     "movq 8(%rdx), %r12\n"
     "movq 16(%rdx), %r13\n"
     "movq 24(%rdx), %r14\n"
     "movq 32(%rdx), %r15\n"
     "movq 40(%rdx), %rbp\n"
     "callq hev_task_call_jump\n"
     "popq %rcx\n"
     "movq %rbx, (%rcx)\n"
     "movq %r12, 8(%rcx)\n"
     "movq %r13, 16(%rcx)\n"
     "movq %r14, 24(%rcx)\n"
     "movq %r15, 32(%rcx)\n"
     "movq %rbp, 40(%rcx)\n"
     "popq %r15\n"
     "popq %r14\n"
     "popq %r13\n"
     "popq %r12\n"
     "popq %rbx\n"
     "popq %rbp\n"
     "retq\n"
     ".size regs_jump, .-regs_jump\n");
namespace p21 {
static const int MAXDEPTH = 4;
struct Actor {
    int id;
    uint64_t tags = 0;
    int rd = -1, wr = -1;
    uint32_t seen = 0;
};
// what the caller keeps in front of the stack
struct Call {
    HevTaskCall base;
    Actor *a;
    int depth, stack, prog;
    uint64_t tag, runs;
    int extra;
    uint8_t tail[0];
};
static HevTaskMutex mutex;
static bool mutex_held;
static void program (Actor *a, int depth, int room);
static uint64_t result_of (uint64_t tag)
{
    uint64_t h = tag * 0x9e3779b97f4a7c15ull ^ 0x5555;
    return h >> 60 == 0 ? 0 : h >> 60 == 1 ? ~0ull : h >> 60 == 2 ? 1 : h;
}
struct Canary {
    volatile uint64_t v[8];
    uint64_t tag;
    const char *who;
    Canary (uint64_t t, const char *w) : tag (t), who (w) { for (int i = 0; i < 8; i++) v[i] = t * 31 + i; }
    void check () { for (int i = 0; i < 8; i++) CHECK (v[i] == tag * 31 + i, "variables", "a variable of the %s changed while other code ran", who); }
};
// uses nearly all of the promised stack, checking first that it is memory the call may use
static __attribute__ ((noinline)) void use_stack (size_t n)
{
    volatile char *p = (volatile char *)alloca (n);
    check_mem ((const void *)p, n, "use of the promised stack");
    for (size_t i = 0; i < n; i += 8)
        p[i] = (char)0xa5;
    p[n - 1] = (char)0xa5;
}
static void entry (HevTaskCall *base)
{
    Call *c = (Call *)base;
    CHECK (((uintptr_t)__builtin_frame_address (0) & 15) == 0, "stack", "a function called on a separate stack gets a misaligned stack");
    c->runs++;
    CHECK (c->runs == 1, "once", "a function called on a separate stack runs %llu times", (unsigned long long)c->runs);
    CHECK (hev_task_self () == self ()->t, "current", "the current task is another one inside a call");
    uint64_t tag = c->tag;
    Canary cn (tag, "called function");
    if (c->prog & 1)
        hev_task_call_set_retval (base, (void *)(uintptr_t)7);
    if (c->prog & 2)
        use_stack (c->stack - 2048);
    if (c->prog & 4)
        program (c->a, c->depth, c->stack);
    cn.check ();
    if (c->prog & 8)
        use_stack (c->stack - 2048);
    hev_task_call_set_retval (base, (void *)(uintptr_t)result_of (tag));
    CHECK (c->tag == tag && c->runs == 1, "variables", "the call object changed while the called function ran");
}
static void one_call (Actor *a, int depth)
{
    static const int stacks[] = { 65536, 32768, 40001, 100000, 33333 };
    int extra = choose (3) == 0 ? 0 : choose (2) ? noise () % 64 : noise () % 6000;
    int stack = pick (stacks);
    Ledger before = ledger ();
    uint64_t f0 = R.faults[F_ALLOC_FAIL] + R.faults[F_MMAP_FAIL];
    bool refuse = choose (8) == 7;
    if (refuse) {
        M.alloc_fail_at = R.allocs;
        M.alloc_fail_n = 1 + choose (3);
    }
    Call *c = (Call *)hev_task_call_new (sizeof (Call) + extra, stack);
    M.alloc_fail_at = -1;
    bool fired = R.faults[F_ALLOC_FAIL] + R.faults[F_MMAP_FAIL] > f0;
    if (!c) {
        CHECK (fired, "failure", "a stack is refused although memory is there");
        Ledger n = ledger ();
        CHECK (n.blocks == before.blocks && n.maps == before.maps, "leak", "a refused stack leaves memory behind");
        probe ("refused");
        return;
    }
    int jumps = 1 + (choose (4) == 3 ? 1 + choose (2) : 0);
    c->extra = extra;
    check_mem (c, sizeof (Call) + extra, "use of the call object");
    for (int i = 0; i < extra; i++)
        c->tail[i] = (uint8_t)(i * 7 + depth);
    for (int j = 0; j < jumps; j++) {
        c->a = a;
        c->depth = depth + 1;
        c->stack = stack;
        c->tag = (uint64_t)a->id << 32 | ++a->tags;
        c->runs = 0;
        c->prog = choose (16);
        uint64_t tag = c->tag, in[6], out[6];
        for (int i = 0; i < 6; i++)
            in[i] = tag * 1000003 + i;
        Canary cn (tag + 1, "caller");
        TR ("task %d depth %d: call %llu", a->id, depth, (unsigned long long)tag);
        void *r;
        if (choose (2)) {
            r = regs_jump (&c->base, entry, in, out);
            for (int i = 0; i < 6; i++)
                CHECK (out[i] == in[i], "variables", "a register that belongs to the caller changed in a call");
        } else
            r = hev_task_call_jump (&c->base, entry);
        cn.check ();
        CHECK (c->runs == 1, "once", "a function called on a separate stack ran %llu times", (unsigned long long)c->runs);
        CHECK ((uint64_t)(uintptr_t)r == result_of (tag), "result", "a call returns another result than the function set");
        CHECK (c->tag == tag && c->a == a && c->depth == depth + 1, "variables", "the call object changed during the call");
        for (int i = 0; i < extra; i++)
            CHECK (c->tail[i] == (uint8_t)(i * 7 + depth), "variables", "the caller's data in the call object changed during the call");
        if (choose (4) == 3)
            yield ();
    }
    hev_task_call_destroy (&c->base);
}
static void program (Actor *a, int depth, int room)
{
    uint64_t tag = (uint64_t)a->id << 32 | ++a->tags;
    Canary cn (tag, depth ? "called function" : "task");
    int steps = 1 + choose (depth ? 3 : 5);
    for (int i = 0; i < steps; i++) {
        switch (choose (6)) {
        case 0:
            yield ();
            break;
        case 1: {
            uint64_t t0 = now ();
            int ms = 1 + choose (9);
            self ()->what = "sleep in a call";
            hev_task_sleep (ms);
            turn_no++;
            (void)t0;
            break;
        }
        case 2:
            if (depth < MAXDEPTH)
                one_call (a, depth);
            break;
        case 3:
            self ()->what = "mutex in a call";
            hev_task_mutex_lock (&mutex);
            turn_no++;
            CHECK (!mutex_held, "exclusion", "two tasks hold the mutex");
            mutex_held = true;
            if (choose (2))
                yield ();
            mutex_held = false;
            hev_task_mutex_unlock (&mutex);
            break;
        case 4: {
            uint32_t v = a->seen * 77 + a->id;
            int w = a->wr;
            auto put = [v, w] { sim_write (w, &v, 4); };
            if (uint32_t d = choose (4))
                after (d * 400000, put);
            else
                put ();
            v = 0;
            self ()->what = "read in a call";
            CHECK (hev_task_io_read (a->rd, &v, 4, NULL, NULL) == 4 && v == a->seen * 77 + a->id, "content", "a call reads other data");
            a->seen++;
            turn_no++;
            break;
        }
        default:
            if (depth < MAXDEPTH) {
                one_call (a, depth);
                nontrivial ();
            }
        }
        self ()->what = "";
        cn.check ();
        CHECK (hev_task_self () == self ()->t, "current", "the current task is another one");
    }
}
SCENARIO ("P21", calls, 10)
{
    machine_random (choose (4));
    M.alloc_fail_rate = M.sys_fail_rate = 0;
    M.alloc_fail_at = M.sys_fail_at = -1;
    set_step_limit (400000);
    Leak lk;
    sys_init ();
    memset (&mutex, 0, sizeof mutex);
    hev_task_mutex_init (&mutex);
    mutex_held = false;
    int n = 1 + choose (4);
    static std::vector<Actor> as;
    as.assign (n, Actor ());
    at_cleanup ([] { as.clear (); });
    for (int i = 0; i < n; i++) {
        int p[2];
        Actor *a = &as[i];
        a->id = i + 1;
        R.immune++;
        sim_pipe2 (p, O_NONBLOCK);
        R.immune--;
        a->rd = p[0];
        a->wr = p[1];
        spawn ([=] {
            R.immune++;
            hev_task_add_fd (hev_task_self (), a->rd, POLLIN);
            R.immune--;
            program (a, 0, 65536);
            hev_task_del_fd (hev_task_self (), a->rd);
            sim_close (a->rd);
            sim_close (a->wr);
        }, rprio (), choose (2) ? -1 : 65536);
    }
    maybe_disturbers ();
    sys_run ();
    sys_fini ();
    lk.check ("after fini");
}
}
