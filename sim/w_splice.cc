// P14 splicing descriptors.
#include "w_cio.h"
using namespace w;
namespace p14 {
struct Side { int i = -1, o = -1; FileP ext, ext2; Peer *pi = nullptr, *po = nullptr; };
struct Relay {
    Side a, b;
    Dir *f, *g;                // a -> b, b -> a; as sent by the far ends
    Dir *fo, *go;              // the same bytes as they come out
    bool socks = false;        // either side uses one descriptor for both directions
    bool running = false, done = false;
    FileP fai, fao, fbi, fbo;  // kernel objects
    Task *t = nullptr;
    int stop_after = -1, yields = 0;
    bool stopped = false;
};
static std::vector<Relay *> rs;

// nothing runs any more: whatever could be moved must have been moved
static void quiet_check (Relay *r)
{
    if (!r->running)
        return;
    struct { FileP in, out; const char *n; Dir *d; } ds[2] = { { r->fai, r->fbo, "forward", r->f }, { r->fbi, r->fao, "backward", r->g } };
    for (auto &x : ds) {
        bool room = x.out->tx->writable () && !x.out->tx->rshut && !x.out->tx->dead;
        if (!room || x.in->rx->dead)
            continue;
        CHECK (x.in->rx->q.empty (), "stalled", "%s: %zu bytes wait at the input and there is room at the output, but the relay sleeps", x.n, x.in->rx->q.size ());
        CHECK (x.in->rx->out == x.out->tx->in, "stalled", "%s: the relay took %lu bytes, passed on %lu and sleeps although there is room", x.n, (unsigned long)x.in->rx->out, (unsigned long)x.out->tx->in);
        probe ("checked-idle");
    }
}
static int yielder (HevTaskYieldType type, void *p)
{
    Relay *r = (Relay *)p;
    r->yields++;
    hev_task_yield (type);
    turn_no++;
    if (r->stop_after >= 0 && r->yields > r->stop_after) {
        r->stopped = true;
        return 1;
    }
    return 0;
}
static void open_side (Side &s, bool one, Dir *out, Dir *in, bool faults, uint64_t cap)
{
    if (one) {
        StreamOpt o;
        random_stream_opt (o);
        s.ext = ext_stream (&s.i, o);
        s.o = s.i;
        s.pi = s.po = peer_new (s.ext, out, in);
        peer_random (s.pi, faults);
    } else if (choose (2)) {
        // two one-way sockets
        StreamOpt o;
        random_stream_opt (o);
        s.ext = ext_stream (&s.i, o);
        s.pi = peer_new (s.ext, out, nullptr);
        random_stream_opt (o);
        s.ext2 = ext_stream (&s.o, o);
        s.po = peer_new (s.ext2, nullptr, in);
        peer_random (s.pi, faults);
        peer_random (s.po, faults);
    } else {
        s.ext = ext_pipe_in (&s.i, 1 + noise () % cap);
        s.pi = peer_new (s.ext, out, nullptr);
        s.ext2 = ext_pipe_out (&s.o, 1 + noise () % cap);
        s.po = peer_new (s.ext2, nullptr, in);
        peer_random (s.pi, false);
        peer_random (s.po, faults);
        if (s.po->kill == 1)
            s.po->kill = 2;
    }
}
static void close_side (Side &s)
{
    hev_task_del_fd (hev_task_self (), s.i);
    sim_close (s.i);
    if (s.o != s.i) {
        hev_task_del_fd (hev_task_self (), s.o);
        sim_close (s.o);
    }
}
static void reg_side (Side &s)
{
    R.immune++;
    HevTask *t = hev_task_self ();
    if (s.i == s.o)
        CHECK (hev_task_add_fd (t, s.i, POLLIN | POLLOUT) == 0, "registration", "registering a descriptor failed");
    else {
        CHECK (hev_task_add_fd (t, s.i, POLLIN) == 0, "registration", "registering a descriptor failed");
        CHECK (hev_task_add_fd (t, s.o, POLLOUT) == 0, "registration", "registering a descriptor failed");
    }
    R.immune--;
}
static void relay (Relay *r, size_t buf, bool use_yielder, bool refuse)
{
    reg_side (r->a);
    reg_side (r->b);
    r->fai = file (r->a.i); r->fao = file (r->a.o);
    r->fbi = file (r->b.i); r->fbo = file (r->b.o);
    r->running = true;
    self ()->what = "splice";
    Ledger l0 = ledger ();
    uint64_t f0 = R.faults[F_FD_FAIL] + R.faults[F_SETUP_FAIL] + R.faults[F_ALLOC_FAIL];
    if (refuse) {
        if (variant_has ("splice_syscall")) {
            M.sys_fail_at = R.syscalls_fallible + choose (6);
            M.sys_fail_n = 1;
        } else {
            M.alloc_fail_at = R.allocs + choose (2);
            M.alloc_fail_n = 1;
        }
    }
    size_t fd0 = open_fds ();
    (void)l0;
    TR ("splice starts, buffer %zu", buf);
    hev_task_io_splice (r->a.i, r->a.o, r->b.i, r->b.o, buf, use_yielder ? yielder : NULL, r);
    turn_no++;
    TR ("splice ends after %d yields", r->yields);
    r->running = false;
    r->done = true;
    self ()->what = "";
    if (refuse) {
        M.sys_fail_at = M.alloc_fail_at = -1;
        if (R.faults[F_FD_FAIL] + R.faults[F_SETUP_FAIL] + R.faults[F_ALLOC_FAIL] > f0) {
            probe ("refused");
            CHECK (r->fai->rx->out == 0 && r->fbi->rx->out == 0, "refused", "a refused relay took bytes");
            r->stopped = true;
        }
    }
    if (rs.size () == 1)
        CHECK (open_fds () == fd0, "leak", "the relay leaves %ld descriptors behind", (long)(open_fds () - fd0));
    // why did it end?
    Dir *f = r->f, *g = r->g;
    bool f_end = r->fai->rx->fin && r->fai->rx->q.empty (), g_end = r->fbi->rx->fin && r->fbi->rx->q.empty ();
    bool f_all = f_end && f->ended && r->fbo->tx->in == f->sent, g_all = g_end && g->ended && r->fao->tx->in == g->sent;
    bool f_err = f->broken || r->fo->broken || g->broken || r->go->broken;
    if (!r->stopped && !f_err) {
        if (r->socks)
            CHECK (f_all || g_all, "complete", "the relay ended before any side was finished: forward %lu of %lu bytes passed on, backward %lu of %lu", (unsigned long)r->fbo->tx->in, (unsigned long)f->sent, (unsigned long)r->fao->tx->in, (unsigned long)g->sent);
        else
            CHECK (f_all && g_all, "complete", "the relay ended: forward %lu of %lu bytes passed on, backward %lu of %lu", (unsigned long)r->fbo->tx->in, (unsigned long)f->sent, (unsigned long)r->fao->tx->in, (unsigned long)g->sent);
        probe ("complete");
    } else if (!r->stopped && !r->socks) {
        // a direction whose own two ends are intact is not cut by the other
        if (!f->broken && !r->fo->broken)
            CHECK (f_all, "complete", "forward ended with %lu of %lu bytes passed on although both its ends are intact", (unsigned long)r->fbo->tx->in, (unsigned long)f->sent);
        if (!g->broken && !r->go->broken)
            CHECK (g_all, "complete", "backward ended with %lu of %lu bytes passed on although both its ends are intact", (unsigned long)r->fao->tx->in, (unsigned long)g->sent);
        probe ("one-broken");
    }
    r->fo->sent = r->fbo->tx->in;
    r->go->sent = r->fao->tx->in;
    r->fai = r->fao = r->fbi = r->fbo = nullptr;
    close_side (r->a);
    close_side (r->b);
}
SCENARIO ("P14", splice, 4)
{
    static const uint64_t tot[] = { 60, 0, 1, 300, 1500, 9000 };
    static const size_t bufs[] = { 4096, 1, 2, 7, 64, 600, 65536 };
    bool faults = choose (4);
    machine_random (faults);
    N.random_caps = choose (2);
    at_cleanup ([] { for (auto r : rs) delete r; rs.clear (); });
    set_step_limit (8000000);
    Leak lk;
    sys_init ();
    uint32_t n = 1 + choose (3) / 2;
    for (uint32_t i = 0; i < n; i++) {
        Relay *r = new Relay ();
        rs.push_back (r);
        uint64_t tf = pick (tot), tg = pick (tot);
        if (tf > 2000 && choose (4)) tf = 100;
        if (tg > 2000 && choose (4)) tg = 100;
        r->f = dir_new ("forward", tf);
        r->g = dir_new ("backward", tg);
        // the receiving side sees the same content
        r->fo = dir_new ("forward out", tf);
        r->go = dir_new ("backward out", tg);
        r->fo->salt = r->f->salt;
        r->go->salt = r->g->salt;
        uint32_t kind = choose (4);
        bool oa = kind & 1, ob = kind & 2;
        if (kind == 0)
            oa = ob = choose (2);
        r->socks = oa || ob;
        open_side (r->a, oa, r->f, r->go, faults, 300);
        open_side (r->b, ob, r->g, r->fo, faults, 300);
        // either end may keep silent until the other has finished
        size_t buf = pick (bufs);
        bool y = choose (2), refuse = faults && choose (12) == 11;
        if (y && choose (4) == 3)
            r->stop_after = choose (20);
        Peer *ps[] = { r->a.pi, r->a.po, r->b.pi, r->b.po };
        for (int k = 0; k < 4; k++)
            if (!(k & 1) || ps[k] != ps[k - 1])
                peer_go (ps[k]);
        if (choose (3) == 2 && !r->a.pi->kill) r->a.pi->keep_open = true;
        if (choose (3) == 2 && !r->b.pi->kill) r->b.pi->keep_open = true;
        if (choose (6) == 5 && !r->a.po->kill) r->a.po->deaf = true;
        if (choose (6) == 5 && !r->b.po->kill) r->b.po->deaf = true;
        r->t = spawn ([=] { relay (r, buf, y, refuse); }, rprio ());
    }
    maybe_disturbers ();
    if (choose (2))
        spawn ([] { for (int i = 0; i < 30; i++) yield (); }, rprio ());
    at_quiet ([] {
        for (auto r : rs) {
            quiet_check (r);
            if (r->a.po->deaf || r->b.po->deaf) {
                peer_listen (r->a.po);
                peer_listen (r->b.po);
                probe ("deaf");
                continue;
            }
            if (choose (2)) peer_end (r->a.pi); else peer_end (r->b.pi);
        }
    });
    at_quiet ([] {
        for (auto r : rs) {
            quiet_check (r);
            peer_end (r->a.pi);
            peer_end (r->b.pi);
        }
    });
    sys_run ();
    world_ends ();
    for (auto r : rs) {
        if (r->f->total > 8 || r->g->total > 8)
            nontrivial ();
        if (!r->fo->broken && !r->f->broken)
            CHECK (r->fo->got == r->fo->sent, "complete", "forward: %lu bytes passed on, %lu arrived", (unsigned long)r->fo->sent, (unsigned long)r->fo->got);
        if (!r->go->broken && !r->g->broken)
            CHECK (r->go->got == r->go->sent, "complete", "backward: %lu bytes passed on, %lu arrived", (unsigned long)r->go->sent, (unsigned long)r->go->got);
    }
    sys_fini ();
    lk.check ("after fini");
}
// one direction never runs dry: the other one and the other tasks get their share all the same
struct Busy {
    FileP src, dst;            // far ends of the busy direction
    FileP from, to;            // far ends of the other one
    Dir *d, *g;
    uint64_t put = 0, out = 0; // busy direction
    uint64_t gput = 0, gout = 0, due = 0, turns = 0, turns_at = 0;
    uint64_t bound = 0;
    Relay *r = nullptr;        // where yields are counted
    bool over = false;
};
static Busy bz;
static void busy_fill ()
{
    while (bz.put < bz.d->total) {
        std::string s = bz.d->text (bz.put, std::min<uint64_t> (512, bz.d->total - bz.put));
        size_t k = ext_write (bz.src, s.data (), s.size ());
        if (!k)
            return;
        bz.put += k;
    }
    if (!bz.over) {
        bz.over = true;
        bz.d->sent = bz.put;
        bz.g->sent = bz.gput;
        ext_shut_write (bz.src);
        ext_shut_write (bz.from);
    }
}
static void busy_drain ()
{
    for (;;) {
        std::string s = ext_read (bz.dst, 4096);
        if (s.empty ())
            break;
        bz.d->sent = bz.put;
        bz.d->take (s.data (), s.size (), "relay");
        bz.out += s.size ();
    }
    // counted in bytes of the busy direction, so whatever holds both up does not matter
    if (bz.gput > bz.gout && !bz.over)
        CHECK (bz.out - bz.due <= bz.bound, "stalled", "%lu bytes wait for one direction and there is room, meanwhile %lu bytes went through the other one",
            (unsigned long)(bz.gput - bz.gout), (unsigned long)(bz.out - bz.due));
    if (bz.r && !bz.over) {
        if (bz.turns != (uint64_t)bz.r->yields) {
            bz.turns = bz.r->yields;
            bz.turns_at = bz.out;
        }
        CHECK (bz.out - bz.turns_at <= bz.bound, "starved", "the relay moved %lu bytes without letting other tasks run", (unsigned long)(bz.out - bz.turns_at));
    }
    if (bz.gput == bz.gout && !bz.over && choose (8) == 0) {
        std::string s = bz.g->text (bz.gput, 1 + noise () % 200);
        size_t k = ext_write (bz.from, s.data (), std::min<size_t> (s.size (), bz.g->total - bz.gput));
        if (k)
            bz.due = bz.out;
        bz.gput += k;
    }
}
static void busy_other ()
{
    for (;;) {
        std::string s = ext_read (bz.to, 4096);
        if (s.empty ())
            break;
        bz.g->sent = bz.gput;
        bz.g->take (s.data (), s.size (), "relay");
        bz.gout += s.size ();
        probe ("beside-busy");
        nontrivial ();
    }
}
static void busy_run (bool layered)
{
    static const size_t bufs[] = { 4096, 64, 600, 65536 };
    machine_random (choose (2));
    at_cleanup ([] { bz = Busy (); });
    set_step_limit (8000000);
    Leak lk;
    sys_init ();
    bz = Busy ();
    StreamOpt o;
    o.cap_ab = o.cap_ba = 512;
    o.low = 1;
    o.net = false;
    size_t buf = pick (bufs);
    bz.bound = 200 * std::min<size_t> (buf, 512);
    bz.d = dir_new ("busy", bz.bound * 2);
    bz.g = dir_new ("other", 1 << 20);
    Side a, b;
    bool oa = choose (2), ob = choose (2);
    auto open = [&] (Side &s, bool one, FileP *out, FileP *in) {
        s.ext = ext_stream (&s.i, o);
        s.o = s.i;
        *out = *in = s.ext;
        if (!one)
            *in = s.ext2 = ext_stream (&s.o, o);
    };
    bool back = choose (2);
    open (a, oa, back ? &bz.from : &bz.src, back ? &bz.dst : &bz.to);
    open (b, ob, back ? &bz.src : &bz.from, back ? &bz.to : &bz.dst);
    bz.src->tx->on_w = busy_fill;
    bz.dst->rx->on_r = busy_drain;
    bz.to->rx->on_r = busy_other;
    busy_fill ();
    bool y = choose (2);
    static bool gone;
    gone = false;
    spawn ([=] () mutable {
        reg_side (a);
        reg_side (b);
        self ()->what = "splice";
        Relay r;
        bz.r = y ? &r : nullptr;
        if (layered) {
            R.immune++;
            auto make = [] (Side &s) {
                Stack k;
                k.fdi = s.i;
                k.fdo = s.o;
                k.l.push_back (Layer{ s.i == s.o && choose (2) ? hev_task_cio_socket_new (AF_UNIX, s.i) : hev_task_cio_fd_new (s.i, s.o), 0, 0, 0 });
                for (uint32_t n = choose (3); n; n--) {
                    static const size_t sz[] = { 300, 0, 64, 1000 };
                    Layer x = { nullptr, 1, pick (sz), pick (sz) };
                    x.c = (HevTaskCIO *)hev_task_cio_buffer_new (x.r, x.w);
                    CHECK (x.c, "new", "creating a stream layer failed");
                    hev_task_cio_push (x.c, k.top ());
                    k.l.push_back (x);
                }
                return k;
            };
            Stack x = make (a), z = make (b);
            R.immune--;
            hev_task_cio_splice (x.top (), z.top (), buf, y ? yielder : NULL, &r);
            gone = true;
            bz.r = nullptr;
            hev_task_del_fd (hev_task_self (), a.i);
            hev_task_del_fd (hev_task_self (), b.i);
            if (a.i != a.o) hev_task_del_fd (hev_task_self (), a.o);
            if (b.i != b.o) hev_task_del_fd (hev_task_self (), b.o);
            stack_close (x);
            stack_close (z);
        } else
            hev_task_io_splice (a.i, a.o, b.i, b.o, buf, y ? yielder : NULL, &r);
        turn_no++;
        self ()->what = "";
        gone = true;
        bz.r = nullptr;
        CHECK (bz.over, "complete", "the relay ended before any side was finished");
        if (!layered) {
            close_side (a);
            close_side (b);
        }
    }, rprio ());
    for (uint32_t i = 1 + choose (2); i; i--)
        spawn ([] { while (!gone) yield (); }, rprio ());
    sys_run ();
    busy_drain ();
    CHECK (bz.out == bz.d->total || oa || ob || layered, "complete", "%lu of %lu bytes passed on", (unsigned long)bz.out, (unsigned long)bz.d->total);
    world_ends ();
    sys_fini ();
    lk.check ("after fini");
}
SCENARIO ("P14", busy, 1) { busy_run (false); }
SCENARIO ("P16", busy_streams, 1) { busy_run (true); }
}
