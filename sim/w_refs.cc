// P22 reference counts: streams and their layers, plain and atomic objects, tasks.
#include "w_cio.h"
#include <hev-circular-buffer.h>
using namespace w;

// ===================================================== streams and objects
namespace p22 {
enum Kind { BOTTOM, NIL, BUFFER, PASS, OBJ };
static const char *const kname[] = { "descriptor stream", "null stream", "buffer layer", "layer", "object" };
struct Node {
    int id, kind;
    void *p;
    int refs = 1;              // held by the scenario
    int links = 0;             // held by layers above
    Node *next = nullptr;
    int fdi = -1, fdo = -1;
    FileP e;                   // other end of the outgoing stream
    std::string expect;        // what has to arrive there
    bool dead = false;
    int gone = 0;
};
static std::vector<Node *> ns;
static std::map<int, uint64_t> closed;   // descriptor -> how often it has to be closed by now
static void gone (int id) { ns[id]->gone++; }
static void check_all (const char *after)
{
    for (auto n : ns) {
        if (n->kind == OBJ || n->kind == PASS) {
            if (n->dead)
                CHECK (n->gone == 1, "destroyed", "%s %d lost its last reference and was destroyed %d times (after %s)", kname[n->kind], n->id, n->gone, after);
            else
                CHECK (n->gone == 0, "destroyed", "%s %d was destroyed although it is still referenced (after %s)", kname[n->kind], n->id, after);
        }
        if (!n->dead)
            CHECK (mem_live (n->p), "lifetime", "%s %d was released although it is still referenced (after %s)", kname[n->kind], n->id, after);
    }
    for (auto &x : closed)
        CHECK (closes_of (x.first) == x.second, "close", "descriptor %d was closed %lu times, its streams ended %lu times (after %s)", x.first, (unsigned long)closes_of (x.first), (unsigned long)x.second, after);
}
static void put (Node *n)
{
    if (n->refs + n->links)
        return;
    n->dead = true;
    if (n->fdi >= 0)
        closed[n->fdi]++;
    if (n->fdo >= 0 && n->fdo != n->fdi)
        closed[n->fdo]++;
    if (n->next) {
        Node *x = n->next;
        n->next = nullptr;
        x->links--;
        put (x);
    }
}
static Node *make ()
{
    static const size_t sz[] = { 8, 0, 1, 64 };
    static const int kinds[] = { BUFFER, BOTTOM, PASS, OBJ, BUFFER, BOTTOM, NIL };
    Node *n = new Node ();
    n->id = ns.size ();
    n->kind = pick (kinds);
    ns.push_back (n);
    switch (n->kind) {
    case BOTTOM: {
        int mode = choose (4), a, b;
        StreamOpt o;
        FileP e = ext_stream (&a, o);
        n->e = e;
        n->fdi = n->fdo = a;
        if (mode == 0)
            n->p = hev_task_cio_fd_new (a, a);
        else if (mode == 1)
            n->p = hev_task_cio_socket_new (AF_UNIX, a);
        else if (mode == 2) {
            n->fdi = -1;
            n->p = hev_task_cio_fd_new (-1, a);
        } else {
            ext_pipe_in (&b, 100);
            n->fdi = b;
            n->p = hev_task_cio_fd_new (b, a);
        }
        if (n->fdi >= 0)
            closed[n->fdi] = closes_of (n->fdi);
        closed[n->fdo] = closes_of (n->fdo);
        break; }
    case NIL: n->p = hev_task_cio_null_new (); break;
    case BUFFER: n->p = hev_task_cio_buffer_new (pick (sz), pick (sz)); break;
    case PASS: n->p = g_tpass_new (n->id, gone); break;
    case OBJ: n->p = g_obj_new (n->id, gone); break;
    }
    CHECK (n->p, "new", "creating a %s failed", kname[n->kind]);
    TR ("%d: new %s", n->id, kname[n->kind]);
    return n;
}
static Node *held (int kinds_from, int kinds_to, bool unlinked_next)
{
    std::vector<Node *> c;
    for (auto n : ns)
        if (n->refs && n->kind >= kinds_from && n->kind <= kinds_to && (!unlinked_next || !n->next))
            c.push_back (n);
    return c.empty () ? nullptr : c[choose (c.size ())];
}
static bool below (Node *top, Node *x)
{
    for (; top; top = top->next)
        if (top == x)
            return true;
    return false;
}
static void use (Node *n)
{
    Node *b = n;
    while (b->next)
        b = b->next;
    if (b->kind != BOTTOM && b->kind != NIL)
        return;
    HevTaskCIO *c = (HevTaskCIO *)n->p;
    char ch = 'a' + noise () % 26;
    ssize_t r = hev_task_cio_write (c, &ch, 1, NULL, NULL);
    if (b->kind == BOTTOM) {
        CHECK (hev_task_cio_get_fd (c, 1) == b->fdo && hev_task_cio_get_fd (c, 0) == b->fdi, "usable", "chain %d over stream %d reports other descriptors", n->id, b->id);
        CHECK (r == 1, "usable", "writing to chain %d over stream %d returns %ld", n->id, b->id, (long)r);
        CHECK (hev_task_cio_flush (c, NULL, NULL) == 0, "usable", "flushing chain %d over stream %d fails", n->id, b->id);
        b->expect += ch;
        std::string got = ext_read (b->e, 1000);
        CHECK (got == b->expect, "usable", "writing to chain %d over stream %d hands on other bytes", n->id, b->id);
        b->expect.clear ();
        nontrivial ();
    } else if (b->kind == NIL) {
        CHECK (r == 1, "usable", "writing to chain %d over a null stream returns %ld", n->id, (long)r);
        CHECK (hev_task_cio_flush (c, NULL, NULL) == 0, "usable", "flushing chain %d over a null stream fails", n->id);
    }
}
static void body (uint32_t rounds)
{
    for (uint32_t i = 0; i < rounds; i++) {
        const char *what = "";
        switch (choose (9)) {
        case 0: what = "new"; if (ns.size () < 24) make (); break;
        case 1: {
            Node *n = held (BOTTOM, OBJ, false);
            what = "ref";
            if (n && n->refs < 4) {
                g_ref (n->p);
                n->refs++;
                TR ("%d: ref", n->id);
            }
            break; }
        case 2: case 3: {
            Node *n = held (BOTTOM, OBJ, false);
            what = "unref";
            if (n) {
                TR ("%d: unref", n->id);
                n->refs--;
                put (n);
                g_unref (n->p);
            }
            break; }
        case 4: case 5: {
            Node *n = held (BUFFER, PASS, true), *x = held (BOTTOM, PASS, false);
            what = "push";
            if (n && x && !below (x, n)) {
                TR ("%d: push onto %d", n->id, x->id);
                HevTaskCIO *r = hev_task_cio_push ((HevTaskCIO *)n->p, (HevTaskCIO *)x->p);
                CHECK (r == n->p, "push", "pushing does not return the new top");
                n->next = x;
                x->refs--;
                x->links++;
                if (x->links > 1)
                    probe ("layer shared by two chains");
                if (x->refs)
                    probe ("layer in a chain and referenced");
            }
            break; }
        case 6: {
            Node *n = held (BUFFER, PASS, false);
            what = "pop";
            if (n) {
                Node *x = n->next;
                TR ("%d: pop", n->id);
                n->refs--;
                n->next = nullptr;
                if (x) {
                    x->links--;
                    x->refs++;
                }
                put (n);
                if (!n->dead)
                    probe ("popped layer lives on");
                HevTaskCIO *r = hev_task_cio_pop ((HevTaskCIO *)n->p);
                CHECK (r == (x ? x->p : nullptr), "pop", "popping layer %d does not return the one below", n->id);
            }
            break; }
        case 7: {
            Node *n = held (BOTTOM, PASS, false);
            what = "use";
            if (n)
                use (n);
            break; }
        case 8: yield (); break;
        }
        check_all (what);
        step ();
    }
}
SCENARIO ("P22", stream_refs, 6)
{
    machine_random (choose (2));
    M.alloc_fail_rate = 0;
    M.alloc_fail_at = M.sys_fail_at = -1;
    M.sys_fail_rate = M.shortw = 0;
    at_cleanup ([] { for (auto n : ns) delete n; ns.clear (); closed.clear (); });
    Leak lk;
    sys_init ();
    uint32_t nt = 1 + choose (2);
    for (uint32_t i = 0; i < nt; i++) {
        uint32_t r = 5 + choose (60);
        spawn ([=] { body (r); }, rprio ());
    }
    spawn ([] {
        for (bool any = true; any;) {
            any = false;
            for (auto t : tasks)
                if (t != self () && !t->done)
                    any = true;
            yield ();
        }
        // drop everything, in any order
        for (;;) {
            Node *n = held (BOTTOM, OBJ, false);
            if (!n)
                break;
            TR ("%d: last unref", n->id);
            n->refs--;
            put (n);
            g_unref (n->p);
            check_all ("the final unref");
        }
        for (auto n : ns)
            CHECK (n->dead, "model", "node %d is left", n->id);
    });
    sys_run ();
    sys_fini ();
    for (auto n : ns)
        n->e.reset ();
    lk.check ("after the last reference was dropped");
}
}

// ================================================================== tasks
namespace p22t {
struct T { HevTask *h; int id; int refs = 1; bool run = false, ended = false; int prio; };
static std::vector<T *> ts;
static uint32_t live_n;
static void look (T *t, const char *when)
{
    CHECK (mem_live (t->h), "lifetime", "task %d was released although it is still referenced (%s)", t->id, when);
    if (t->ended) {
        CHECK (hev_task_get_state (t->h) == HEV_TASK_STOPPED, "inspect", "ended task %d does not read as stopped (%s)", t->id, when);
        CHECK (hev_task_get_data (t->h) == t, "inspect", "ended task %d does not keep its data (%s)", t->id, when);
        CHECK (hev_task_get_priority (t->h) == t->prio, "inspect", "ended task %d does not keep its priority (%s)", t->id, when);
        probe ("ended task inspected");
        nontrivial ();
    }
}
static void drop_ref (T *t)
{
    Ledger a = ledger ();
    bool last = --t->refs == 0;
    hev_task_unref (t->h);
    if (!last) {
        CHECK (mem_live (t->h), "lifetime", "task %d was released although it is still referenced", t->id);
        return;
    }
    Ledger b = ledger ();
    // the stack goes with the last reference
    if (variant_has ("mmap"))
        CHECK (b.maps < a.maps, "lifetime", "task %d: its stack was not released with the last reference", t->id);
    if (!variant_has ("slice"))
        CHECK (!mem_live (t->h), "lifetime", "task %d was not released with its last reference", t->id);
}
static void ent (void *p);
static void ops (T *me)
{
    uint32_t n = choose (10);
    for (uint32_t i = 0; i < n; i++) {
        step ();
        T *t = ts[choose (ts.size ())];
        switch (choose (6)) {
        case 0: yield (); break;
        case 1:
            if (t->refs && t->refs < 5) {
                hev_task_ref (t->h);
                t->refs++;
            }
            break;
        case 2:
            // never the reference of the scheduler
            if (t->refs > ((t->run && !t->ended) ? 1 : 0))
                drop_ref (t);
            break;
        case 3: if (t->refs) look (t, "later"); break;
        case 4:
            if (ts.size () < 12) {
                T *x = new T ();
                x->id = ts.size ();
                x->h = hev_task_new (choose (2) ? -1 : 16384);
                CHECK (x->h, "new", "hev_task_new failed");
                x->prio = rprio0 ();
                hev_task_set_priority (x->h, x->prio == 15 && choose (2) ? 200 : x->prio == 0 && choose (2) ? -3 : x->prio);
                ts.push_back (x);
                if (choose (3)) {
                    x->run = true;
                    if (choose (2)) {
                        hev_task_ref (x->h);
                        x->refs++;
                    }
                    hev_task_run (x->h, ent, x);
                }
            }
            break;
        case 5: if (me) hev_task_usleep (choose (200)); turn_no++; break;
        }
        for (auto x : ts)
            if (x->refs)
                look (x, "at every step");
    }
}
static void ent (void *p)
{
    T *t = (T *)p;
    live_n++;
    mix (0x22, t->id);
    ops (t);
    t->ended = true;
    // the scheduler drops the reference given to hev_task_run
    t->refs--;
}
SCENARIO ("P22", task_refs, 2)
{
    machine_random (choose (2));
    M.alloc_fail_rate = 0;
    M.alloc_fail_at = M.sys_fail_at = -1;
    M.sys_fail_rate = 0;
    at_cleanup ([] { for (auto t : ts) delete t; ts.clear (); });
    Leak lk;
    sys_init ();
    live_n = 0;
    uint32_t n = 1 + choose (5);
    for (uint32_t i = 0; i < n; i++) {
        T *x = new T ();
        x->id = i;
        x->h = hev_task_new (-1);
        CHECK (x->h, "new", "hev_task_new failed");
        x->prio = rprio0 ();
        hev_task_set_priority (x->h, x->prio);
        ts.push_back (x);
        x->run = true;
        if (choose (3)) {
            hev_task_ref (x->h);
            x->refs++;
        }
        hev_task_run (x->h, ent, x);
    }
    hev_task_system_run ();
    for (auto t : ts) {
        if (t->refs)
            look (t, "after the run");
        if (t->run)
            CHECK (t->ended, "return", "hev_task_system_run returned although task %d has not ended", t->id);
        while (t->refs)
            drop_ref (t);
    }
    sys_fini ();
    lk.check ("after the last reference was dropped");
}
}

// =========================================================== atomic objects
namespace p22a {
struct A { void *p; int gone = 0; int refs = 0; bool dying = false; uint64_t sum = 0; };
static std::vector<A *> as;
static uint32_t busy;
static void gone (int id)
{
    A *a = as[id];
    a->gone++;
    CHECK (a->gone == 1, "destroyed", "shared object %d was destroyed %d times", id, a->gone);
    CHECK (a->refs == 0, "destroyed", "shared object %d was destroyed while %d references remain", id, a->refs);
}
static void worker (std::vector<int> mine)
{
    // mine[i]: references to object i this thread holds
    uint32_t n = 2 + choose (20);
    for (uint32_t i = 0; i < n; i++) {
        int k = choose (as.size ());
        A *a = as[k];
        if (mine[k] == 0)
            continue;
        CHECK (a->gone == 0, "lifetime", "shared object %d is gone although this thread holds a reference", k);
        if (choose (2)) {
            a->refs++;      // counted before it is taken ...
            mine[k]++;
            g_ref (a->p);
        } else {
            a->refs--;      // ... and before it is dropped: gone() may only come after
            mine[k]--;
            g_unref (a->p);
        }
        thread_point ();
    }
    for (size_t k = 0; k < as.size (); k++)
        while (mine[k]) {
            CHECK (as[k]->gone == 0, "lifetime", "shared object %zu is gone although this thread holds a reference", k);
            as[k]->refs--;
            mine[k]--;
            g_unref (as[k]->p);
            thread_point ();
        }
}
static void atomic_refs_main ()
{
    machine_random (choose (2));
    M.alloc_fail_rate = 0;
    M.alloc_fail_at = M.sys_fail_at = -1;
    M.sys_fail_rate = 0;
    M.preempt = 60 + choose (150);
    M.npoints = 1 + choose (6);
    M.point_span = 5 + choose (100);
    at_cleanup ([] { for (auto a : as) delete a; as.clear (); });
    uint32_t no = 1 + choose (2), nt = 2 + choose (3);
    std::vector<std::vector<int>> share (nt, std::vector<int> (no));
    for (uint32_t i = 0; i < no; i++) {
        A *a = new A ();
        as.push_back (a);
        a->p = g_aobj_new (i, gone);
        a->refs = 1;
        uint32_t first = choose (nt);
        share[first][i]++;
        for (uint32_t t = 0; t < nt; t++) {
            uint32_t c = t == first ? choose (2) : 1;
            for (uint32_t j = 0; j < c; j++) {
                g_ref (a->p);
                a->refs++;
                share[t][i]++;
            }
        }
    }
    std::vector<int> ids;
    for (uint32_t t = 1; t < nt; t++) {
        auto m = share[t];
        ids.push_back (thread_spawn ([m] { worker (m); }));
    }
    arm_access_points ();
    worker (share[0]);
    for (int id : ids)
        thread_join (id);
    for (size_t k = 0; k < as.size (); k++)
        CHECK (as[k]->gone == 1, "destroyed", "shared object %zu was destroyed %d times after its last reference", k, as[k]->gone);
    nontrivial ();
}
// counts are as wide as they need to be
static void many_refs ()
{
    machine_random (0);
    M.alloc_fail_at = M.sys_fail_at = -1;
    static const uint32_t ns[] = { 300, 255, 256, 257, 32768, 65535, 65536, 70000 };
    at_cleanup ([] { for (auto a : as) delete a; as.clear (); });
    A *a = new A ();
    as.push_back (a);
    Leak lk;
    int kind = choose (4);
    sys_init ();
    Ledger l0 = ledger ();
    HevTask *t = kind == 2 ? hev_task_new (-1) : nullptr;
    HevCircularBuffer *cb = kind == 3 ? hev_circular_buffer_new (64) : nullptr;
    a->p = kind == 0 ? g_obj_new (0, gone) : kind == 1 ? g_aobj_new (0, gone) : kind == 2 ? (void *)t : (void *)cb;
    CHECK (a->p, "new", "creating an object failed");
    uint32_t n = pick (ns) + choose (3);
    size_t blocks = ledger ().blocks;
    for (uint32_t i = 0; i < n; i++)
        kind < 2 ? g_ref (a->p) : kind == 2 ? (void)hev_task_ref (t) : (void)hev_circular_buffer_ref (cb);
    a->refs = n + 1;
    while (a->refs) {
        CHECK (!a->gone && ledger ().blocks == blocks, "destroyed", "an object was destroyed while %d of %u references remain", a->refs, n + 1);
        a->refs--;
        kind < 2 ? g_unref (a->p) : kind == 2 ? hev_task_unref (t) : hev_circular_buffer_unref (cb);
    }
    if (kind < 2)
        CHECK (a->gone == 1, "destroyed", "an object was destroyed %d times after its last reference", a->gone);
    (void)l0;
    nontrivial ();
    sys_fini ();
    lk.check ("after the last reference was dropped");
}
static Reg r3 ("P22", "many_refs", 1, many_refs, false);
static Reg r1 ("P22", "atomic_refs", 3, atomic_refs_main, true), r2 ("P20", "atomic_refs", 2, atomic_refs_main, true);
}
