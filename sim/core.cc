// Run control, choices, time, memory arena, simulated threads.
#include "internal.h"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csetjmp>
#include <csignal>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <queue>
#include <deque>
#include <map>
#include <new>

namespace sim {

const char *fault_name[F_N] = {
    "interrupted_wait", "spurious_readiness_event", "spurious_task_wakeup", "event_reorder", "event_delay",
    "short_write", "net_delay", "datagram_loss", "datagram_dup", "datagram_reorder", "connection_reset",
    "half_close", "peer_stall", "connect_refused", "connect_timeout", "connect_aborted",
    "allocation_refused", "mapping_refused", "descriptor_refused", "setup_call_refused", "io_error", "timer_late",
    "process_stall", "coarse_clock", "clock_edge", "realtime_jump", "resolver_delay", "resolver_error",
    "thread_preemption", "thread_start_refused", "errno_clobber", "dirty_memory", "memory_reuse_at_once",
    "stack_overrun", "wild_access"
};

Machine M;
bool tracing = false;
std::function<bool ()> on_idle;
std::function<void ()> on_block;
std::function<void (uint64_t, uint64_t)> on_jump;
RunState R;
const char *only_scenario;

// ---------------------------------------------------------------- choices
static inline uint64_t splitmix (uint64_t &s)
{
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
uint32_t choose (uint32_t n)
{
    uint32_t v = 0;
    if (n <= 1)
        return 0;
    if (R.replay) {
        if (R.pos < R.replay_n) {
            v = R.replay[R.pos];
            if (v >= n)
                v = v % n;
        }
    } else if (R.pos < 200000) {
        v = (uint32_t) (((splitmix (R.rng) >> 32) * (uint64_t)n) >> 32);
    }
    if (R.record && R.pos < 200000)
        R.choices.push_back (v);
    R.pos++;
    return v;
}
uint64_t noise ()
{
    return splitmix (R.noise);
}

// ---------------------------------------------------------------- traces
void mix (uint64_t a, uint64_t b)
{
    uint64_t h = R.hash ^ (a * 0x9e3779b97f4a7c15ull) ^ (b + 0x7f4a7c15);
    h ^= h >> 29;
    h *= 0xbf58476d1ce4e5b9ull;
    h ^= h >> 32;
    R.hash = h;
    R.events++;
}
void trace (const char *fmt, ...)
{
    if (!tracing)
        return;
    char buf[600];
    int n = snprintf (buf, sizeof buf, "[%12llu us t%d] ", (unsigned long long)(R.now / 1000), thread_self ());
    va_list ap;
    va_start (ap, fmt);
    vsnprintf (buf + n, sizeof buf - n, fmt, ap);
    va_end (ap);
    R.tracelog.push_back (buf);
}
void step (uint32_t n)
{
    R.steps += n;
    if (R.steps > R.step_limit)
        fail ("livelock", "no end after %llu steps", (unsigned long long)R.step_limit);
}
void set_step_limit (uint64_t n) { R.step_limit = n; }
uint64_t steps () { return R.steps; }
void fault (Fault f) { R.faults[f]++; TR ("FAULT %s", fault_name[f]); }
void probe (const char *name)
{
    for (auto &p : R.probes)
        if (p.first == name) { p.second++; return; }
    R.probes.emplace_back (name, 1);
}
void nontrivial () { R.nontrivial = true; }
void note (const char *fmt, ...)
{
    if (R.note.size () > 400)
        return;
    char buf[300];
    va_list ap;
    va_start (ap, fmt);
    vsnprintf (buf, sizeof buf, fmt, ap);
    va_end (ap);
    if (!R.note.empty ())
        R.note += "; ";
    R.note += buf;
}

// ---------------------------------------------------------------- time
struct Ev { uint64_t t, seq; std::function<void ()> fn; };
struct EvCmp { bool operator() (const Ev *a, const Ev *b) const
    { return a->t != b->t ? a->t > b->t : a->seq > b->seq; } };
static std::priority_queue<Ev *, std::vector<Ev *>, EvCmp> evq;

uint64_t now () { return R.now; }
static uint64_t quant (uint64_t t)
{
    uint64_t g = M.gran ? M.gran : 1;
    return g <= 1 ? t : (t + g - 1) / g * g;
}
void at (uint64_t when, std::function<void ()> fn)
{
    if (when < R.now)
        when = R.now;
    evq.push (new Ev{ when, R.evseq++, std::move (fn) });
}
bool run_due_events ()
{
    bool any = false;
    if (R.in_event)
        return false;
    while (!evq.empty () && evq.top ()->t <= R.now) {
        Ev *e = evq.top ();
        evq.pop ();
        R.in_event++;
        e->fn ();
        R.in_event--;
        delete e;
        any = true;
        step ();
    }
    return any;
}
void advance (uint64_t ns)
{
    R.now = quant (R.now + ns);
}
uint64_t pending_events () { return evq.size (); }
bool next_event_time (uint64_t *t)
{
    if (evq.empty ())
        return false;
    *t = evq.top ()->t;
    return true;
}
void jump_to_next_event ()
{
    uint64_t t;
    if (next_event_time (&t) && t > R.now)
        R.now = quant (t);
    if (!R.in_event)
        run_due_events ();
}
static void clear_events ()
{
    while (!evq.empty ()) {
        delete evq.top ();
        evq.pop ();
    }
}

// ---------------------------------------------------------------- machine
void machine_benign ()
{
    M = Machine ();
}
void machine_random (bool faults)
{
    M = Machine ();
    static const uint32_t grans[] = { 1, 1, 1000, 1, 10000, 1000000 };
    M.tick = choose (5);
    M.memfill = choose (4);
    if (M.memfill)
        R.faults[F_MEM_DIRTY]++;
    M.maporder = choose (3);
    M.gran = grans[choose (6)];
    if (M.gran > 1)
        R.faults[F_CLOCK_COARSE]++;
    // clock start
    switch (choose (7)) {
    case 0: R.now = 1000000000ull; break;
    case 1: R.now = 1999999000ull + choose (2000); R.faults[F_CLOCK_EDGE]++; break;
    case 2: R.now = 5000000000ull - 1000000ull * choose (50); R.faults[F_CLOCK_EDGE]++; break;
    case 3: R.now = 1000ull * choose (1u << 30); break;
    case 4: R.now = 1000000000ull * (uint64_t)choose (2000000000u) + choose (1000000000); break;
    case 5: R.now = 3000000000ull + 999990000ull + 1000ull * choose (10); R.faults[F_CLOCK_EDGE]++; break;
    case 6: R.now = 4000000000ull + 1000000ull * choose (1000); break;
    }
    R.now = quant (R.now ? R.now : 1);
    R.start = R.now;
    R.noise = choose (1u << 30);
    if (!faults)
        return;
    // swarm: each kind of fault is on or off as a whole in this run
    uint32_t on = choose (256);
    if (on & 1) M.eintr = range (8, 96);
    if (on & 2) M.spurious = range (4, 96);
    if (on & 4) M.reorder = 1;
    if (on & 8) M.evdelay = range (8, 96);
    if (on & 16) M.late = range (1, 2);
    if (on & 32) M.stall = range (1, 12);
    if (on & 64) M.clobber = 1;
    if (on & 128) M.reuse = 1;
}

// ---------------------------------------------------------------- arena
static const uintptr_t HEAP_BASE = 0x100000000000ull;
static const size_t HEAP_SIZE = 512ull << 20;
static const uintptr_t MAP_BASE = 0x110000000000ull;
static const size_t MAP_SIZE = 1024ull << 20;
static const size_t PG = 4096;
static uint8_t *shadow;        // one byte per 8 bytes of heap
static uint8_t *pgstate;       // per page of the map arena: 0 none, 1 rw, 2 ro, 3 protected
static size_t heap_top, heap_hw;
static size_t map_lo, map_hi;  // used from below / from above
struct Block { size_t size; uint32_t magic, state; uint64_t idx; uint64_t pad; };
static std::vector<uintptr_t> blocks;
static std::map<size_t, std::vector<uintptr_t>> freelist;
struct MapRec { uintptr_t addr; size_t len; bool live; };
static std::vector<MapRec> maps;
static Ledger led;

static void arena_init ()
{
    if (shadow)
        return;
    void *p = mmap ((void *)HEAP_BASE, HEAP_SIZE, PROT_READ | PROT_WRITE,
                    MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    void *q = mmap ((void *)MAP_BASE, MAP_SIZE, PROT_NONE,
                    MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void *)HEAP_BASE || q != (void *)MAP_BASE) {
        fprintf (stderr, "sim: cannot place arenas\n");
        _exit (3);
    }
    shadow = (uint8_t *)mmap (0, HEAP_SIZE / 8, PROT_READ | PROT_WRITE,
                              MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    pgstate = (uint8_t *)calloc (1, MAP_SIZE / PG);
    map_hi = MAP_SIZE;
}
static void arena_reset ()
{
    arena_init ();
    memset (shadow, 0, heap_hw / 8 + 8);
    if (heap_hw > (4u << 20))
        madvise ((void *)HEAP_BASE, heap_hw, MADV_DONTNEED);
    heap_top = heap_hw = 64;
    blocks.clear ();
    freelist.clear ();
    if (map_lo) {
        mprotect ((void *)MAP_BASE, map_lo, PROT_NONE);
        madvise ((void *)MAP_BASE, map_lo, MADV_DONTNEED);
        memset (pgstate, 0, map_lo / PG);
    }
    if (map_hi < MAP_SIZE) {
        mprotect ((void *)(MAP_BASE + map_hi), MAP_SIZE - map_hi, PROT_NONE);
        madvise ((void *)(MAP_BASE + map_hi), MAP_SIZE - map_hi, MADV_DONTNEED);
        memset (pgstate + map_hi / PG, 0, (MAP_SIZE - map_hi) / PG);
    }
    map_lo = 0;
    map_hi = MAP_SIZE;
    maps.clear ();
    led = Ledger ();
}
static bool alloc_refused (bool map)
{
    int64_t i = R.allocs++;
    bool f = false;
    if (R.immune)
        return false;
    if (M.alloc_fail_at >= 0 && i >= M.alloc_fail_at && i < M.alloc_fail_at + (int64_t)M.alloc_fail_n)
        f = true;
    else if (M.alloc_fail_rate && chance (M.alloc_fail_rate, 256))
        f = true;
    if (f)
        fault (map ? F_MMAP_FAIL : F_ALLOC_FAIL);
    return f;
}
static void set_shadow (uintptr_t a, size_t n, uint8_t freed)
{
    uint8_t *s = shadow + (a - HEAP_BASE) / 8;
    if (freed) {
        memset (s, freed, (n + 7) / 8);
        return;
    }
    memset (s, 8, n / 8);
    if (n & 7)
        s[n / 8] = n & 7;
}
void *heap_alloc (size_t size, size_t align)
{
    if (size > (256u << 20)) {
        errno = ENOMEM;
        return NULL;
    }
    size_t need = (size + 15) & ~15ull;
    uintptr_t a = 0;
    if (align < 16)
        align = 16;
    if (M.reuse && align == 16) {
        auto it = freelist.find (need);
        if (it != freelist.end () && !it->second.empty ()) {
            a = it->second.back ();
            it->second.pop_back ();
            R.faults[F_MEM_REUSE]++;
        }
    }
    if (!a) {
        if (heap_top + need + 128 > HEAP_SIZE)
            discard_run ("arena full");
        a = HEAP_BASE + heap_top + sizeof (Block) + 16;
        a = (a + align - 1) & ~(uintptr_t)(align - 1);
        heap_top = a - HEAP_BASE + need + 16;
        if (heap_top > heap_hw)
            heap_hw = heap_top;
        blocks.push_back (a);
    }
    Block *b = (Block *)(a - sizeof (Block));
    b->size = size;
    b->magic = 0xb10c;
    b->state = 1;
    b->idx = R.alloc_idx++;
    if (need == 0)
        need = 16;
    set_shadow (a, size, 0);
    memset ((void *)(a + size), 0xc7, ((size + 15) & ~15ull) + 16 - size);
    switch (M.memfill) {
    case 0: memset ((void *)a, 0, size); break;
    case 1: memset ((void *)a, 0xff, size); break;
    case 2: memset ((void *)a, 0xa5, size); break;
    default: {
        uint64_t s = R.noise ^ b->idx;
        size_t fill = size < 4096 ? size : 4096, i;
        for (i = 0; i + 8 <= fill; i += 8) {
            uint64_t v = splitmix (s);
            memcpy ((char *)a + i, &v, 8);
        }
        if (i < size)
            memset ((char *)a + i, 0x5a, size - i);
    } }
    led.blocks++;
    led.bytes += size;
    return (void *)a;
}
static Block *block_of (void *p, const char *op)
{
    uintptr_t a = (uintptr_t)p;
    if (a < HEAP_BASE + 64 || a >= HEAP_BASE + heap_hw || (a & 15))
        fail ("memory", "%s of a pointer that is not an allocated block", op);
    Block *b = (Block *)(a - sizeof (Block));
    if (b->magic != 0xb10c)
        fail ("memory", "%s of a pointer that is not the start of a block, or heap corruption", op);
    if (b->state != 1)
        fail ("memory", "%s of a block that was already released (block %llu, %zu bytes)", op,
              (unsigned long long)b->idx, b->size);
    return b;
}
void heap_free (void *p)
{
    if (!p)
        return;
    Block *b = block_of (p, "free");
    size_t need = (b->size + 15) & ~15ull;
    // what code that is not instrumented wrote behind its block
    for (size_t i = b->size; i < need + 16; i++)
        if (((uint8_t *)p)[i] != 0xc7)
            fail ("memory", "a block of %zu bytes was written to behind its end (offset %zu)", b->size, i);
    b->state = 2;
    led.blocks--;
    led.bytes -= b->size;
    set_shadow ((uintptr_t)p, need, 0xfd);
    memset (p, 0xdd, b->size < 8192 ? b->size : 8192);
    if (M.reuse)
        freelist[need].push_back ((uintptr_t)p);
}
void *heap_realloc (void *p, size_t size)
{
    if (!p)
        return heap_alloc (size);
    Block *b = block_of (p, "realloc");
    size_t old = b->size;
    void *q = heap_alloc (size);
    if (!q)
        return NULL;
    memcpy (q, p, old < size ? old : size);
    heap_free (p);
    return q;
}
size_t heap_size (void *p) { return block_of (p, "size query")->size; }
bool alloc_fault (bool map) { return alloc_refused (map); }

void check_mem (const void *p, size_t n, const char *what)
{
    uintptr_t a = (uintptr_t)p;
    if (n == 0)
        return;
    if (a - HEAP_BASE < HEAP_SIZE) {
        uintptr_t e = a + n - 1;
        for (uintptr_t g = (a - HEAP_BASE) / 8; g <= (e - HEAP_BASE) / 8; g++) {
            uint8_t s = shadow[g];
            uintptr_t last = g == (e - HEAP_BASE) / 8 ? (e & 7) : 7;
            if (s > 8 || last >= s) {
                // find the block
                uintptr_t best = 0;
                for (uintptr_t b : blocks)
                    if (b <= a + 32 && b > best)
                        best = b;
                Block *b = best ? (Block *)(best - sizeof (Block)) : NULL;
                fail ("memory", "%s of %zu bytes %s (near block %lld of %lld bytes, offset %lld)", what, n,
                      s == 0xfd ? "in released memory" : "outside any allocated block",
                      b ? (long long)b->idx : -1ll, b ? (long long)b->size : -1ll,
                      b ? (long long)(a - best) : 0ll);
            }
        }
    } else if (a - MAP_BASE < MAP_SIZE) {
        for (uintptr_t g = (a - MAP_BASE) / PG; g <= (a + n - 1 - MAP_BASE) / PG; g++)
            if (pgstate[g] != 1)
                fail ("memory", "%s of %zu bytes in %s memory of a mapping", what, n,
                      pgstate[g] == 0 ? "unmapped" : "protected");
    }
}

void *map_alloc (size_t len)
{
    len = (len + PG - 1) / PG * PG;
    if (map_lo + len + PG * 2 > map_hi || len > (200u << 20))
        return NULL;
    uintptr_t a;
    bool up = M.maporder == 0 || (M.maporder == 2 && (noise () & 1));
    size_t gap = M.adjacent ? 0 : PG;
    if (up) {
        a = MAP_BASE + map_lo + gap;
        map_lo += len + gap;
    } else {
        map_hi -= len + gap;
        a = MAP_BASE + map_hi;
    }
    mprotect ((void *)a, len, PROT_READ | PROT_WRITE);
    memset (pgstate + (a - MAP_BASE) / PG, 1, len / PG);
    maps.push_back (MapRec{ a, len, true });
    led.maps += len / PG;
    return (void *)a;
}
int map_free (void *p, size_t len)
{
    uintptr_t a = (uintptr_t)p;
    len = (len + PG - 1) / PG * PG;
    if ((a & (PG - 1)) || !len) {
        errno = EINVAL;
        return -1;
    }
    if (a - MAP_BASE >= MAP_SIZE)
        fail ("memory", "munmap of foreign memory");
    for (size_t g = (a - MAP_BASE) / PG; g < (a - MAP_BASE + len) / PG; g++) {
        if (pgstate[g] == 0)
            fail ("memory", "munmap of pages that are not mapped (twice released or wrong length)");
        pgstate[g] = 0;
    }
    led.maps -= len / PG;
    mprotect (p, len, PROT_NONE);
    madvise (p, len, MADV_DONTNEED);
    return 0;
}
int map_protect (void *p, size_t len, int prot)
{
    uintptr_t a = (uintptr_t)p;
    len = (len + PG - 1) / PG * PG;
    if ((a & (PG - 1)) || a - MAP_BASE >= MAP_SIZE) {
        errno = EINVAL;
        return -1;
    }
    for (size_t g = (a - MAP_BASE) / PG; g < (a - MAP_BASE + len) / PG; g++) {
        if (pgstate[g] == 0) {
            errno = ENOMEM;
            return -1;
        }
        pgstate[g] = prot == (PROT_READ | PROT_WRITE) ? 1 : prot == PROT_READ ? 2 : 3;
    }
    mprotect (p, len, prot);
    return 0;
}
bool mem_live (const void *p)
{
    uintptr_t a = (uintptr_t)p;
    if (a - HEAP_BASE < HEAP_SIZE)
        return shadow[(a - HEAP_BASE) / 8] >= 1 && shadow[(a - HEAP_BASE) / 8] <= 8;
    if (a - MAP_BASE < MAP_SIZE)
        return pgstate[(a - MAP_BASE) / PG] != 0;
    return true;
}
int page_state (const void *p)
{
    uintptr_t a = (uintptr_t)p;
    return a - MAP_BASE < MAP_SIZE ? pgstate[(a - MAP_BASE) / PG] : -1;
}
const char *map_start (const void *p)
{
    uintptr_t a = (uintptr_t)p;
    for (size_t i = maps.size (); i--;)
        if (a - maps[i].addr < maps[i].len)
            return (const char *)maps[i].addr;
    return NULL;
}
const char *block_start (const void *p)
{
    uintptr_t a = (uintptr_t)p;
    for (size_t i = blocks.size (); i--;)
        if (a - blocks[i] < ((Block *)(blocks[i] - sizeof (Block)))->size && mem_live (p))
            return (const char *)blocks[i];
    return NULL;
}
bool in_heap (const void *p) { return (uintptr_t)p - HEAP_BASE < HEAP_SIZE; }
void signal_ledger (Ledger &l);
Ledger ledger ()
{
    Ledger l = led;
    l.fds = open_fds ();
    signal_ledger (l);
    return l;
}
std::string ledger_detail ()
{
    std::string s;
    char buf[100];
    int n = 0;
    for (uintptr_t a : blocks) {
        Block *b = (Block *)(a - sizeof (Block));
        if (b->state == 1 && n++ < 8) {
            snprintf (buf, sizeof buf, " block#%llu(%zu bytes)", (unsigned long long)b->idx, b->size);
            s += buf;
        }
    }
    s += open_fds_detail ();
    return s;
}

// ---------------------------------------------------------------- threads
struct Thread {
    int id;
    pthread_t th;
    sem_t sem;
    jmp_buf base;
    std::function<void ()> fn;
    std::function<bool ()> ready;     // non-null while blocked
    bool done = false, started = false, helper = false;
    void *keys[64] = {};
    int guard_depth = 0;
};
static std::vector<Thread *> threads;
static Thread *cur;
static sem_t over_sem;
static __thread Thread *me;
static char *altstacks[64];

static void hand_over (Thread *t)
{
    cur = t;
    sem_post (&t->sem);
}
static void park ()
{
    while (sem_wait (&me->sem) < 0) {}
    if (R.over)
        _longjmp (me->base, 1);
}
static std::vector<Thread *> cand;
static void runnable_list ()
{
    cand.clear ();
    for (auto t : threads) {
        if (t->done)
            continue;
        if (t->ready) {
            if (!t->ready ())
                continue;
        }
        cand.push_back (t);
    }
}
static void switch_to (Thread *t)
{
    if (t == me)
        return;
    Thread *self = me;
    hand_over (t);
    (void)self;
    park ();
}
int thread_self () { return me ? me->id : -1; }
bool thread_mt () { return threads.size () > 1; }
static void drive ();   // find someone else to run; returns when `me` may go on

void thread_block (const std::function<bool ()> &ready)
{
    if (ready ())
        return;
    me->ready = ready;
    drive ();
    me->ready = nullptr;
}
static void drive ()
{
    for (;;) {
        runnable_list ();
        if (!cand.empty ()) {
            Thread *t = cand[choose (cand.size ())];
            if (t == me)
                return;
            mix (0x71, t->id);
            switch_to (t);
            // back: somebody decided we run
            if (!me->ready || me->ready ())
                return;
            continue;
        }
        uint64_t t;
        if (next_event_time (&t)) {
            if (on_jump && t > R.now)
                on_jump (R.now, t);
            jump_to_next_event ();
            step ();
            continue;
        }
        step ();
        if (on_idle && on_idle ())
            continue;
        end_run ();
    }
}
static void preempt ()
{
    runnable_list ();
    if (cand.size () < 2)
        return;
    // pick another one
    Thread *t = cand[choose (cand.size ())];
    if (t == me)
        return;
    fault (F_THREAD_PREEMPT);
    mix (0x72, t->id);
    switch_to (t);
}
void thread_point ()
{
    if (threads.size () <= 1 || R.in_event)
        return;
    if (M.preempt && chance (M.preempt, 256))
        preempt ();
}
void access_point ()
{
    if (R.in_event || !me || me != cur || R.no_access_points)
        return;
    preempt ();
    // next point
    if (R.points_left) {
        R.points_left--;
        R.next_point = R.accesses + 1 + choose (M.point_span);
    } else
        R.next_point = R.access_limit;
}
void arm_access_points ()
{
    if (M.npoints) {
        R.points_left = M.npoints - 1;
        R.next_point = R.accesses + 1 + choose (M.point_span);
    }
}
static void *carrier (void *p)
{
    Thread *t = (Thread *)p;
    me = t;
    stack_t ss;
    ss.ss_sp = altstacks[t->id];
    ss.ss_size = 65536;
    ss.ss_flags = 0;
    sigaltstack (&ss, NULL);
    if (!_setjmp (t->base)) {
        park ();
        t->started = true;
        t->fn ();
    }
    t->done = true;
    if (t->id == 0)
        R.over = true;
    if (R.over) {
        sem_post (&over_sem);
        return NULL;
    }
    // normal end of a secondary thread: let somebody else go on
    if (!_setjmp (t->base)) {
        for (;;) {
            runnable_list ();
            if (!cand.empty ()) {
                hand_over (cand[choose (cand.size ())]);
                break;
            }
            uint64_t tt;
            if (next_event_time (&tt)) {
                jump_to_next_event ();
                step ();
                continue;
            }
            if (on_idle && on_idle ())
                continue;
            R.over = true;
            break;
        }
    }
    sem_post (&over_sem);
    return NULL;
}
static Thread *make_thread (std::function<void ()> fn)
{
    Thread *t = new Thread ();
    t->id = threads.size ();
    if (t->id >= 64) {
        delete t;
        discard_run ("too many threads");
    }
    sem_init (&t->sem, 0, 0);
    t->fn = std::move (fn);
    if (!altstacks[t->id])
        altstacks[t->id] = (char *)malloc (65536);
    threads.push_back (t);
    pthread_attr_t a;
    pthread_attr_init (&a);
    pthread_attr_setstacksize (&a, 512 * 1024);
    if (pthread_create (&t->th, &a, carrier, t)) {
        fprintf (stderr, "sim: pthread_create failed\n");
        _exit (3);
    }
    pthread_attr_destroy (&a);
    return t;
}
void thread_exit_keys ();
int thread_spawn (std::function<void ()> fn)
{
    return make_thread ([fn] { fn (); thread_exit_keys (); })->id;
}
void thread_set_helper (int id) { threads[id]->helper = true; }
bool thread_helper () { return me && me->helper; }
void thread_join (int id)
{
    Thread *t = threads[id];
    thread_block ([t] { return t->done; });
}
void **thread_keys () { return me->keys; }

[[noreturn]] void end_run ()
{
    R.over = true;
    if (!me)
        abort ();
    _longjmp (me->base, 1);
}
[[noreturn]] void discard_run (const char *why)
{
    R.discarded = true;
    TR ("run discarded: %s", why);
    end_run ();
}
[[noreturn]] void fail (const char *oracle, const char *fmt, ...)
{
    if (R.oracle.empty ()) {
        char buf[500];
        va_list ap;
        va_start (ap, fmt);
        vsnprintf (buf, sizeof buf, fmt, ap);
        va_end (ap);
        R.oracle = oracle;
        R.message = buf;
        TR ("VIOLATED %s: %s", oracle, buf);
        mix (0xbad, R.oracle.size ());
    }
    end_run ();
}

// crash and hang handling ---------------------------------------------------
void (*fault_hook) (int, siginfo_t *, void *);
void (*abort_hook) (const char *);
std::string diag, out_text;
static void on_crash (int sig, siginfo_t *si, void *uc)
{
    if (!me || !R.active) {
        signal (sig, SIG_DFL);
        raise (sig);
        return;
    }
    if (fault_hook && R.oracle.empty ())
        fault_hook (sig, si, uc);
    if (R.oracle.empty ()) {
        R.oracle = "crash";
        char buf[120];
        uintptr_t a = (uintptr_t)si->si_addr;
        const char *where = a - MAP_BASE < MAP_SIZE ? "in a mapping of the library"
            : a - HEAP_BASE < HEAP_SIZE ? "in the heap" : a < 65536 ? "near address zero" : "at a wild address";
        snprintf (buf, sizeof buf, "%s %s", sig == SIGSEGV ? "invalid memory access" : sig == SIGBUS ? "bus error"
                  : sig == SIGFPE ? "arithmetic fault" : "illegal instruction",
                  sig == SIGSEGV || sig == SIGBUS ? where : "");
        R.message = buf;
        TR ("VIOLATED crash: %s", buf);
    }
    R.over = true;
    _longjmp (me->base, 1);
}
static volatile uint64_t hang_run, hang_n;
static void on_tick (int)
{
    if (!me || !R.active)
        return;
    if (hang_run != R.serial) {
        hang_run = R.serial;
        hang_n = 0;
        return;
    }
    if (++hang_n < 6)
        return;
    hang_n = 0;
    if (R.oracle.empty ()) {
        R.oracle = "hang";
        R.message = "the process spins without making progress";
    }
    R.over = true;
    _longjmp (me->base, 1);
}
void install_handlers ()
{
    struct sigaction sa;
    memset (&sa, 0, sizeof sa);
    sa.sa_sigaction = on_crash;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    sigaction (SIGSEGV, &sa, NULL);
    sigaction (SIGBUS, &sa, NULL);
    sigaction (SIGFPE, &sa, NULL);
    sigaction (SIGILL, &sa, NULL);
    memset (&sa, 0, sizeof sa);
    sa.sa_handler = on_tick;
    sa.sa_flags = SA_ONSTACK | SA_NODEFER | SA_RESTART;
    sigaction (SIGPROF, &sa, NULL);
    struct itimerval it = { { 1, 0 }, { 1, 0 } };
    setitimer (ITIMER_PROF, &it, NULL);
    signal (SIGPIPE, SIG_IGN);
}

// ---------------------------------------------------------------- a run
static std::vector<Scenario> &scen ()
{
    static std::vector<Scenario> v;
    return v;
}
void add_scenario (const Scenario &s) { scen ().push_back (s); }
const std::vector<Scenario> &scenarios () { return scen (); }

extern "C" char __start_hevdata[] __attribute__ ((weak)), __stop_hevdata[] __attribute__ ((weak));
extern "C" char __start_hevbss[] __attribute__ ((weak)), __stop_hevbss[] __attribute__ ((weak));
extern "C" void (*__start_hevinit[]) (int, char **, char **) __attribute__ ((weak)), (*__stop_hevinit[]) (int, char **, char **) __attribute__ ((weak));
static char *snap;
// constructors of the library are part of the run
static void lib_construct ()
{
    static char *none[] = { NULL };
    for (auto p = __start_hevinit; p < __stop_hevinit; p++)
        (*p) (0, none, none);
}
static void lib_snapshot ()
{
    size_t n = __stop_hevdata - __start_hevdata;
    if (!snap) {
        snap = (char *)malloc (n + 1);
        memcpy (snap, __start_hevdata, n);
    }
    memcpy (__start_hevdata, snap, n);
    memset (__start_hevbss, 0, __stop_hevbss - __start_hevbss);
}

static bool match (const Scenario &c, const char *prop)
{
    return !strcmp (c.prop, prop) && (!only_scenario || !strcmp (c.name, only_scenario));
}
void run_once (const char *prop, uint64_t seed, const std::vector<uint32_t> *replay, bool record)
{
    sigset_t blk, old;
    static uint64_t serial = 0;
    clear_events ();
    arena_reset ();
    kernel_reset ();
    pthread_sim_reset ();
    lib_snapshot ();
    on_idle = nullptr;
    on_block = nullptr;
    on_jump = nullptr;
    R.~RunState ();
    new (&R) RunState ();
    R.serial = ++serial;
    uint64_t s = seed;
    R.rng = splitmix (s) ^ 0x5851f42d4c957f2dull;
    if (replay) {
        static const uint32_t none[1] = { 0 };
        R.replay = replay->empty () ? none : replay->data ();
        R.replay_n = replay->size ();
    }
    R.record = record;
    R.now = R.start = 1000000000ull;
    M = Machine ();
    // scenario by weight
    uint32_t tot = 0;
    for (auto &c : scen ())
        if (match (c, prop))
            tot += c.weight;
    if (!tot) {
        fprintf (stderr, "no scenario for %s\n", prop);
        _exit (3);
    }
    uint32_t w = choose (tot);
    const Scenario *sc = NULL;
    for (auto &c : scen ())
        if (match (c, prop)) {
            if (w < c.weight) {
                sc = &c;
                break;
            }
            w -= c.weight;
        }
    R.scenario = sc->name;
    TR ("scenario %s", sc->name);
    sem_init (&over_sem, 0, 0);
    threads.clear ();
    R.active = true;
    Thread *t0 = make_thread ([sc] { lib_construct (); sc->main (); });
    sigemptyset (&blk);
    sigaddset (&blk, SIGPROF);
    pthread_sigmask (SIG_BLOCK, &blk, &old);
    hand_over (t0);
    while (sem_wait (&over_sem) < 0) {}
    while (!R.over)
        while (sem_wait (&over_sem) < 0) {}
    for (size_t i = 0; i < threads.size (); i++)
        if (!threads[i]->done)
            sem_post (&threads[i]->sem);
    for (size_t i = 0; i < threads.size (); i++) {
        pthread_join (threads[i]->th, NULL);
        sem_destroy (&threads[i]->sem);
        delete threads[i];
    }
    pthread_sigmask (SIG_SETMASK, &old, NULL);
    threads.clear ();
    R.active = false;
    R.simtime = R.now - R.start;
    R.ihash = R.hash | 1;
    mix (R.now, R.steps);
    clear_events ();
    on_idle = nullptr;
    on_block = nullptr;
    on_jump = nullptr;
    scenario_cleanup ();
    sem_destroy (&over_sem);
}

static std::vector<std::function<void ()>> cleanups;
void at_cleanup (std::function<void ()> f) { cleanups.push_back (std::move (f)); }
void scenario_cleanup ()
{
    for (auto &f : cleanups)
        f ();
    cleanups.clear ();
}

} // namespace sim

// ---------------------------------------------------------------- instrumentation
using namespace sim;
static inline __attribute__ ((always_inline)) void acc (const void *p, size_t n, const char *w)
{
    uintptr_t a = (uintptr_t)p;
    if (a - 0x100000000000ull < (512ull << 20) || a - 0x110000000000ull < (1024ull << 20))
        check_mem (p, n, w);
    if (__builtin_expect (++R.accesses >= R.next_point, 0)) {
        if (R.accesses >= R.access_limit)
            fail ("livelock", "no end after %llu memory accesses", (unsigned long long)R.access_limit);
        access_point ();
    }
}
extern "C" {
void __tsan_init () {}
void __tsan_func_entry (void *) {}
void __tsan_func_exit () {}
void __tsan_vptr_update (void **, void *) {}
void __tsan_read_range (void *p, size_t n) { acc (p, n, "read"); }
void __tsan_write_range (void *p, size_t n) { acc (p, n, "write"); }
#define RW(n) \
    void __tsan_read##n (void *p) { acc (p, n, "read"); } \
    void __tsan_write##n (void *p) { acc (p, n, "write"); } \
    void __tsan_unaligned_read##n (void *p) { acc (p, n, "read"); } \
    void __tsan_unaligned_write##n (void *p) { acc (p, n, "write"); } \
    void __tsan_volatile_read##n (void *p) { acc (p, n, "read"); } \
    void __tsan_volatile_write##n (void *p) { acc (p, n, "write"); } \
    void __tsan_unaligned_volatile_read##n (void *p) { acc (p, n, "read"); } \
    void __tsan_unaligned_volatile_write##n (void *p) { acc (p, n, "write"); }
RW (1) RW (2) RW (4) RW (8) RW (16)
// Simulated threads run one at a time and only switch in acc(), so the plain
// operation after the switch point is atomic in the simulation.
#define AT(b, T) \
    T __tsan_atomic##b##_load (const volatile T *p, int) { acc ((void *)p, sizeof (T), "read"); return *p; } \
    void __tsan_atomic##b##_store (volatile T *p, T v, int) { acc ((void *)p, sizeof (T), "write"); *p = v; } \
    T __tsan_atomic##b##_exchange (volatile T *p, T v, int) { acc ((void *)p, sizeof (T), "write"); T o = *p; *p = v; return o; } \
    T __tsan_atomic##b##_fetch_add (volatile T *p, T v, int) { acc ((void *)p, sizeof (T), "write"); T o = *p; *p = o + v; return o; } \
    T __tsan_atomic##b##_fetch_sub (volatile T *p, T v, int) { acc ((void *)p, sizeof (T), "write"); T o = *p; *p = o - v; return o; } \
    T __tsan_atomic##b##_fetch_and (volatile T *p, T v, int) { acc ((void *)p, sizeof (T), "write"); T o = *p; *p = o & v; return o; } \
    T __tsan_atomic##b##_fetch_or (volatile T *p, T v, int) { acc ((void *)p, sizeof (T), "write"); T o = *p; *p = o | v; return o; } \
    T __tsan_atomic##b##_fetch_xor (volatile T *p, T v, int) { acc ((void *)p, sizeof (T), "write"); T o = *p; *p = o ^ v; return o; } \
    T __tsan_atomic##b##_fetch_nand (volatile T *p, T v, int) { acc ((void *)p, sizeof (T), "write"); T o = *p; *p = ~(o & v); return o; } \
    int __tsan_atomic##b##_compare_exchange_strong (volatile T *p, T *e, T v, int, int) \
    { acc ((void *)p, sizeof (T), "write"); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
    int __tsan_atomic##b##_compare_exchange_weak (volatile T *p, T *e, T v, int, int) \
    { acc ((void *)p, sizeof (T), "write"); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
    T __tsan_atomic##b##_compare_exchange_val (volatile T *p, T e, T v, int, int) \
    { acc ((void *)p, sizeof (T), "write"); T o = *p; if (o == e) *p = v; return o; }
AT (8, uint8_t) AT (16, uint16_t) AT (32, uint32_t) AT (64, uint64_t)
void __tsan_atomic_thread_fence (int) {}
void __tsan_atomic_signal_fence (int) {}
}
