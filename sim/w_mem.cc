// P18 allocator histories.
#include "w_stream.h"
#include <hev-memory-allocator.h>
#include <map>
using namespace w;
namespace p18 {
struct Blk { uint8_t *p; size_t n; uint64_t pat; };
static std::vector<Blk> live;
static std::map<uintptr_t, size_t> spans;
static uint64_t pats;
static uint8_t byte (uint64_t pat, size_t i)
{
    uint64_t x = (pat * 0x9e3779b97f4a7c15ull + i) * 0xbf58476d1ce4e5b9ull;
    return x >> 41;
}
static void fill (Blk &b)
{
    b.pat = ++pats;
    for (size_t i = 0; i < b.n; i++)
        b.p[i] = byte (b.pat, i);
}
static void intact (const Blk &b, size_t n, const uint8_t *p, const char *when)
{
    for (size_t i = 0; i < n; i++)
        CHECK (p[i] == byte (b.pat, i), "content", "byte %zu of a block of %zu bytes changed (%s)", i, b.n, when);
}
static void claim (uint8_t *p, size_t n, const char *op)
{
    CHECK (((uintptr_t)p & 15) == 0, "alignment", "%s of %zu bytes returns a misaligned block", op, n);
    check_mem (p, n, op);          // lies inside memory the C heap handed out
    uintptr_t a = (uintptr_t)p;
    auto it = spans.upper_bound (a + n - 1);
    if (it != spans.begin ()) {
        --it;
        CHECK (it->first + it->second <= a, "overlap", "%s of %zu bytes returns a block overlapping a live block of %zu bytes", op, n, it->second);
    }
    spans[a] = n;
}
static size_t any_size ()
{
    static const size_t edges[] = { 1, 63, 64, 65, 127, 128, 129, 4032, 4033, 4095, 4096, 4097, 4160, 8192, 20000 };
    switch (choose (5)) {
    case 0: return 1 + noise () % 200;
    case 1: return pick (edges);
    case 2: return 64 * (1 + noise () % 6);
    case 3: return 1 + noise () % 4200;
    default: return 1 + noise () % 64;
    }
}
static bool refusing;
static uint64_t refused () { return R.faults[F_ALLOC_FAIL]; }
static void op_alloc (int kind)
{
    static const char *names[] = { "malloc", "malloc0", "calloc", "realloc of nothing" };
    size_t n = any_size (), m = 1;
    uint64_t f0 = refused ();
    uint8_t *p;
    switch (kind) {
    case 0: p = (uint8_t *)hev_malloc (n); break;
    case 1: p = (uint8_t *)hev_malloc0 (n); break;
    case 2:
        m = 1 + noise () % 9;
        n = (n + m - 1) / m;
        p = (uint8_t *)hev_calloc (m, n);
        n *= m;
        break;
    default: p = (uint8_t *)hev_realloc (NULL, n);
    }
    TR ("%s of %zu: %s", names[kind], n, p ? "ok" : "refused");
    mix (0x91, p ? n : 0);
    if (!p) {
        CHECK (refused () > f0, "refused", "%s of %zu bytes fails although memory is available", names[kind], n);
        probe ("allocation-refused");
        return;
    }
    claim (p, n, names[kind]);
    if (kind == 1 || kind == 2)
        for (size_t i = 0; i < n; i++)
            CHECK (p[i] == 0, "zero", "%s of %zu bytes returns memory that is not zero at %zu", names[kind], n, i);
    Blk b{ p, n, 0 };
    fill (b);
    live.push_back (b);
}
static void forget (size_t k)
{
    spans.erase ((uintptr_t)live[k].p);
    live[k] = live.back ();
    live.pop_back ();
}
static void op_free (size_t k)
{
    intact (live[k], live[k].n, live[k].p, "before it was freed");
    TR ("free of %zu", live[k].n);
    mix (0x92, live[k].n);
    hev_free (live[k].p);
    forget (k);
}
static void op_realloc (size_t k)
{
    Blk b = live[k];
    size_t n = choose (3) ? any_size () : b.n + noise () % 20;
    if (choose (12) == 11)
        n = 0;
    intact (b, b.n, b.p, "before it was resized");
    uint64_t f0 = refused ();
    uint8_t *p = (uint8_t *)hev_realloc (b.p, n);
    TR ("realloc from %zu to %zu: %s", b.n, n, p ? "ok" : "nothing");
    mix (0x93, n);
    if (n == 0) {
        CHECK (!p, "resize", "resizing to nothing returns a block");
        forget (k);
        return;
    }
    if (!p) {
        CHECK (refused () > f0, "refused", "realloc to %zu bytes fails although memory is available", n);
        intact (b, b.n, b.p, "a refused resize");
        check_mem (b.p, b.n, "a block after a refused resize");
        probe ("resize-refused");
        return;
    }
    spans.erase ((uintptr_t)b.p);
    claim (p, n, "realloc");
    intact (b, std::min (b.n, n), p, "resize");
    live[k].p = p;
    live[k].n = n;
    fill (live[k]);
}
// requests that can never be met
static void op_absurd ()
{
    static const size_t sizes[] = { SIZE_MAX, SIZE_MAX - 7, SIZE_MAX - 62, SIZE_MAX - 63, SIZE_MAX - 64, SIZE_MAX - 100, SIZE_MAX / 2 + 1, (size_t)1 << 38, ((size_t)1 << 38) + 64, ((size_t)3 << 38) + 4096, ((size_t)1 << 62) + 10 };
    size_t n = pick (sizes);
    void *p = nullptr;
    const char *what = "malloc";
    switch (choose (4)) {
    case 0: p = hev_malloc (n); break;
    case 1: what = "malloc0"; p = hev_malloc0 (n); break;
    case 2: {
        static const size_t m[] = { 2, 3, 16, 64, (size_t)1 << 32, SIZE_MAX };
        size_t k = pick (m), l = SIZE_MAX / k + 1 + noise () % 3;
        what = "calloc";
        n = l;
        p = choose (2) ? hev_calloc (k, l) : hev_calloc (l, k);
        break; }
    case 3: {
        if (live.empty ())
            return;
        what = "realloc";
        size_t k = noise () % live.size ();
        p = hev_realloc (live[k].p, n);
        CHECK (!p, "absurd", "realloc to %zu bytes returns a block", n);
        check_mem (live[k].p, live[k].n, "a block after a refused resize");
        intact (live[k], live[k].n, live[k].p, "a refused resize");
        break; }
    }
    TR ("%s of %zu: %s", what, n, p ? "ok" : "refused");
    CHECK (!p, "absurd", "%s of %zu bytes (or elements) returns a block", what, n);
    probe ("absurd-size");
}
static size_t limit () { return !variant_has ("slice") ? 0 : variant_has ("ship") ? 1000 : 3; }
static void one_op (bool outside, size_t base, uint32_t bias)
{
    uint32_t o = choose (16);
    if (o < 5 + bias)
        op_alloc (choose (4));
    else if (o < 9 || o == 15) {
        if (live.size ())
            op_realloc (noise () % live.size ());
    } else if (o == 14) {
        if (choose (3) == 2)
            op_absurd ();
        else
            hev_free (NULL);
    } else if (live.size ()) {
        static const int order[] = { 0, 1, 2 };
        int w = pick (order);
        op_free (w == 0 ? live.size () - 1 : w == 1 ? 0 : noise () % live.size ());
    }
    if (outside) {
        Ledger l = ledger ();
        CHECK (l.blocks >= base + live.size (), "accounting", "a live block is not backed by the C heap");
        size_t cached = l.blocks - base - live.size ();
        CHECK (cached <= limit (), "cache", "%zu free blocks are kept, the limit is %zu", cached, limit ());
        if (cached)
            probe ("cached-blocks");
        if (cached == limit () && cached)
            probe ("cache-full");
    }
}
static void all_intact ()
{
    for (auto &b : live) {
        intact (b, b.n, b.p, "while it was live");
        check_mem (b.p, b.n, "a live block");
    }
}
static void burst ()
{
    size_t n = 900 + noise () % 400, keep = live.size ();
    for (size_t i = 0; i < n; i++)
        op_alloc (0);
    while (live.size () > keep)
        op_free (keep + noise () % (live.size () - keep));
}
static void setup (bool faults)
{
    machine_random (faults);
    M.alloc_fail_at = -1;
    M.alloc_fail_rate = 0;
    live.clear ();
    spans.clear ();
    pats = 0;
    set_step_limit (400000);
    at_cleanup ([] { live.clear (); spans.clear (); });
}
static void refuse ()
{
    static const uint32_t rates[] = { 10, 60, 200 };
    refusing = true;
    if (choose (2)) {
        M.alloc_fail_at = R.allocs + choose (30);
        M.alloc_fail_n = 1 + choose (4);
    } else
        M.alloc_fail_rate = pick (rates);
}
static void grant ()
{
    refusing = false;
    M.alloc_fail_at = -1;
    M.alloc_fail_rate = 0;
}
// a history of one thread, outside tasks
SCENARIO ("P18", history, 5)
{
    bool faults = choose (3);
    setup (faults);
    Leak lk;
    uint32_t rounds = 1 + choose (3);
    for (uint32_t r = 0; r < rounds; r++) {
        sys_init ();
        size_t base = ledger ().blocks;
        uint32_t phases = 1 + choose (4);
        for (uint32_t p = 0; p < phases; p++) {
            uint32_t n = 4 + choose (120), bias = choose (4);
            bool f = faults && choose (3) == 2;
            if (f)
                refuse ();
            for (uint32_t i = 0; i < n; i++)
                one_op (true, base, bias);
            grant ();
            if (choose (variant_has ("ship") ? 60 : 4000) == 59)
                burst ();
        }
        all_intact ();
        while (live.size ())
            op_free (noise () % live.size ());
        size_t cached = ledger ().blocks - base;
        CHECK (cached <= limit (), "cache", "%zu free blocks are kept, the limit is %zu", cached, limit ());
        if (choose (3) == 2) {
            // starting a second system in the thread fails and changes nothing
            op_alloc (0);
            op_alloc (1);
            if (faults && choose (2))
                refuse ();
            CHECK (hev_task_system_init () == -1, "second", "a second task system starts in the same thread");
            grant ();
            one_op (false, base, 0);
            while (live.size ())
                op_free (0);
        }
        sys_fini ();
        lk.check ("after fini");
    }
    nontrivial ();
}
// histories of tasks whose blocks outlive them
SCENARIO ("P18", history_of_tasks, 3)
{
    bool faults = choose (3);
    setup (faults);
    Leak lk;
    sys_init ();
    uint32_t nt = 1 + choose (5);
    for (uint32_t t = 0; t < nt; t++)
        spawn ([=] {
            uint32_t n = 4 + choose (60), bias = choose (4);
            for (uint32_t i = 0; i < n; i++) {
                if (faults && choose (8) == 7)
                    refuse ();
                one_op (false, 0, bias);
                grant ();
                switch (choose (6)) {
                case 3: yield (); break;
                case 4: hev_task_sleep (choose (4)); turn_no++; break;
                case 5: {
                    // library objects come and go in between
                    Task *t = prepare ([] { op_alloc (1); }, rprio (), choose (2) ? 30000 : -1);
                    start (t);
                    break; }
                }
            }
        }, rprio ());
    maybe_disturbers ();
    sys_run ();
    all_intact ();
    while (live.size ())
        op_free (noise () % live.size ());
    sys_fini ();
    lk.check ("after fini");
    nontrivial ();
}
}
