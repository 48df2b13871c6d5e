// P08 channels, P09 channel select.
#include "w.h"
#include <algorithm>
#include <deque>
#include <hev-task-channel.h>
#include <hev-task-channel-select.h>
using namespace w;
namespace p08 {
struct End;
struct Dir {                   // one direction
    uint32_t n = 0, size = 0;  // buffers, message size
    std::vector<std::string> sent;   // in order of the write calls, cut to what must arrive
    uint32_t received = 0;
    uint32_t ok = 0;           // writes that reported success
    uint64_t stored () const { return sent.size () - received; }
};
struct End {
    HevTaskChannel *c = nullptr;
    bool alive = true;
    Dir *out = nullptr, *in = nullptr;
    End *peer = nullptr;
    int users = 0;
    Task *reading = nullptr, *writing = nullptr;
    int id = 0;
};
static std::vector<End *> ends;
static std::vector<Dir *> dirs;
static bool closing;
static uint32_t n_read, n_write, n_close, n_blocked;

static void do_write (End *e)
{
    Dir *d = e->out;
    static const uint32_t lens[] = { 0, 1, 2, 3, 4, 7, 8, 9, 16, 40 };
    uint32_t len = pick (lens);
    std::string m (len, 0);
    for (auto &c : m)
        c = (char)noise ();
    // the task's own buffer, exact size, next to guards
    char buf[64];
    memset (buf, 0x5a, sizeof buf);
    memcpy (buf + 8, m.data (), len);
    uint32_t eff = d->n ? std::min (len, d->size) : len;
    bool was_alive = e->peer->alive;
    bool room = d->n && d->stored () < d->n;
    Task *me = self ();
    if (was_alive)
        d->sent.push_back (m.substr (0, eff));
    size_t k = d->sent.size ();
    e->writing = me;
    me->what = "channel write";
    uint64_t tn = turn_no;
    TR ("task %d: end %d write %u bytes (%llu stored)", me->id, e->id, len, (unsigned long long)d->stored ());
    ssize_t r = hev_task_channel_write (e->c, buf + 8, len);
    me->what = "";
    e->writing = nullptr;
    bool sw = turn_no != tn;
    turn_no++;
    n_write++;
    n_blocked += sw;
    TR ("task %d: end %d write = %zd", me->id, e->id, r);
    mix (0x77, r);
    if (!was_alive) {
        CHECK (r == -1, "closed", "a write to a destroyed end returns %zd", r);
        CHECK (!sw, "blocked", "a write to a destroyed end let other tasks run");
        return;
    }
    if (room)
        CHECK (!sw, "blocked", "a write blocked although only %llu of %u messages wait", (unsigned long long)d->stored () - 1, d->n);
    if (r < 0) {
        CHECK (r == -1, "result", "write returns %zd", r);
        CHECK (!e->peer->alive || !e->alive, "result", "a write fails although both ends exist");
        CHECK (d->received < k, "result", "a write fails although its message was received");
        return;
    }
    CHECK ((size_t)r == eff, "result", "a write of %u bytes (message size %u) returns %zd", len, d->size, r);
    d->ok++;
    if (d->n == 0)
        CHECK (d->received >= k, "blocked", "an unbuffered write returned before the message was taken");
    else
        CHECK (d->stored () <= d->n, "blocked", "a write returned although more than %u messages wait", d->n);
}
static void do_read (End *e)
{
    Dir *d = e->in;
    static const uint32_t lens[] = { 40, 0, 1, 3, 4, 8, 9, 16, 40 };
    uint32_t cnt = pick (lens);
    char buf[64];
    memset (buf, 0xa5, sizeof buf);
    Task *me = self ();
    bool avail = d->stored () > 0 && (e->peer->alive || d->ok > d->received);
    bool was_alive = e->peer->alive;
    e->reading = me;
    me->what = "channel read";
    uint64_t tn = turn_no;
    TR ("task %d: end %d read %u (%llu stored)", me->id, e->id, cnt, (unsigned long long)d->stored ());
    ssize_t r = hev_task_channel_read (e->c, buf + 8, cnt);
    me->what = "";
    e->reading = nullptr;
    bool sw = turn_no != tn;
    turn_no++;
    n_blocked += sw;
    n_read++;
    TR ("task %d: end %d read = %zd", me->id, e->id, r);
    mix (0x72, r);
    if (avail || !was_alive)
        CHECK (!sw, "blocked", "a read let other tasks run although %s", avail ? "a message waits" : "the other end is gone");
    if (r < 0) {
        CHECK (r == -1, "result", "read returns %zd", r);
        CHECK (!e->peer->alive || !e->alive, "result", "a read fails although both ends exist");
        if (e->alive)
            CHECK (d->received >= d->ok, "lost", "a read fails although %u messages were sent before the other end was destroyed", d->ok - d->received);
        for (char c : buf)
            CHECK ((uint8_t)c == 0xa5, "data", "a failed read wrote to the buffer");
        return;
    }
    CHECK (d->received < d->sent.size (), "invented", "a read returns a message that was never written");
    std::string &m = d->sent[d->received];
    size_t want = std::min<size_t> (cnt, m.size ());
    CHECK ((size_t)r == want, "data", "message %u: read of %u returns %zd, expected %zu", d->received, cnt, r, want);
    CHECK (!memcmp (buf + 8, m.data (), want), "data", "message %u differs from what was written", d->received);
    for (size_t i = 0; i < sizeof buf; i++)
        if (i < 8 || i >= 8 + want)
            CHECK ((uint8_t)buf[i] == 0xa5, "data", "a read wrote outside its part of the buffer");
    d->received++;
}
static void destroy (End *e)
{
    if (!e->alive)
        return;
    TR ("task %d: destroys end %d", self () ? self ()->id : -1, e->id);
    e->alive = false;
    n_close++;
    hev_task_channel_destroy (e->c);
}
static void user (End *e, int roles, uint32_t nops, uint32_t succ)
{
    e->users++;
    spawn ([e, roles, nops, succ] {
        bool both = roles == 3;
        for (uint32_t k = 0; k < nops && e->alive && !closing; k++) {
            switch (choose (6)) {
            case 4: yield (); break;
            case 5: hev_task_usleep (1 + noise () % 3000); turn_no++; break;
            }
            if (!e->alive || closing)
                break;
            int op = both ? 1 + choose (2) : roles;
            if (op == 1)
                do_read (e);
            else
                do_write (e);
        }
        e->users--;
        if (!e->alive)
            return;
        if (succ && !closing) {
            // somebody else goes on with this end
            probe ("end handed to another task");
            user (e, roles, range (1, 10), succ - 1);
        } else if (e->users == 0 && choose (2))
            destroy (e);
        else if (choose (12) == 0 && !e->reading && !e->writing)
            destroy (e);
    }, rprio ());
}
static void check_blocked ()
{
    for (auto e : ends) {
        if (e->reading) {
            CHECK (!e->in->stored (), "stuck", "task %d is blocked reading although %llu messages wait", e->reading->id, (unsigned long long)e->in->stored ());
            CHECK (e->peer->alive && e->alive, "stuck", "task %d is blocked reading although an end is gone", e->reading->id);
        }
        if (e->writing) {
            CHECK (e->out->stored () > e->out->n, "stuck", "task %d is blocked writing although only %llu messages wait", e->writing->id, (unsigned long long)e->out->stored ());
            CHECK (e->peer->alive && e->alive, "stuck", "task %d is blocked writing although an end is gone", e->writing->id);
        }
    }
}
// sizes near the limits: refused, or as good as any other
SCENARIO ("P08", large, 1)
{
    static const uint32_t v[][2] = {
        { 65536, 65535 }, { 1u << 20, 4095 }, { 1u << 31, 1 }, { UINT32_MAX, 1 }, { 8, UINT32_MAX }, { 0, UINT32_MAX },
        { 1, (1u << 28) - 1 }, { 0, (1u << 28) - 1 }, { 0xaaaaaaabu, 2 }, { 0x10000100u, 15 }, { 4096, 64 }, { 64, 1000 },
    };
    machine_random (0);
    Leak lk;
    sys_init ();
    spawn ([=] {
        uint32_t i = choose (12);
        uint32_t size = v[i][0], n = v[i][1];
        HevTaskChannel *a = nullptr, *b = nullptr;
        int r = hev_task_channel_new_with_buffers (&a, &b, size, n);
        TR ("%u buffers of %u bytes: %d", n, size, r);
        CHECK (r == 0 || r == -1, "create", "creating a channel pair returns %d", r);
        if (r)
            CHECK (i < 10, "create", "a channel pair of moderate size is refused");
        if (!r) {
            nontrivial ();
            char t[64];
            uint32_t k = std::min (n, 3 + choose (20)), len = std::min<uint32_t> (size, 1 + choose (64));
            for (uint32_t d = 0; d < 2; d++) {
                for (uint32_t j = 0; j < k; j++) {
                    memset (t, 17 + j * 3 + d, sizeof t);
                    self ()->what = "channel write with room";
                    ssize_t s = hev_task_channel_write (d ? a : b, t, len);
                    CHECK (s == (ssize_t)len, "write", "a write of %u bytes to a channel of %u x %u returns %zd", len, n, size, s);
                }
            }
            for (uint32_t d = 0; d < 2; d++)
                for (uint32_t j = 0; j < k; j++) {
                    memset (t, 0, sizeof t);
                    self ()->what = "channel read with data";
                    ssize_t s = hev_task_channel_read (d ? b : a, t, sizeof t);
                    CHECK (s == (ssize_t)len, "read", "a read from a channel of %u x %u returns %zd instead of %u", n, size, s, len);
                    for (uint32_t x = 0; x < len; x++)
                        CHECK (t[x] == (char)(17 + j * 3 + d), "data", "a message in a channel of %u x %u is damaged", n, size);
                }
            hev_task_channel_destroy (a);
            hev_task_channel_destroy (b);
        }
        self ()->what = "";
    });
    sys_run ();
    sys_fini ();
    lk.check ("after fini");
}
SCENARIO ("P08", channel, 24)
{
    machine_random (choose (4));
    at_cleanup ([] { for (auto e : ends) delete e; for (auto d : dirs) delete d; ends.clear (); dirs.clear (); });
    ends.clear ();
    dirs.clear ();
    closing = false;
    n_read = n_write = n_close = n_blocked = 0;
    Leak lk;
    sys_init ();
    int np = choose (3) ? 1 : 2;
    for (int i = 0; i < np; i++) {
        static const uint32_t bufs[] = { 0, 1, 2, 3, 8 }, sizes[] = { 16, 0, 1, 2, 3, 4, 8, 40 };
        uint32_t n = pick (bufs), s = pick (sizes);
        End *a = new End (), *b = new End ();
        Dir *x = new Dir (), *y = new Dir ();
        ends.push_back (a);
        ends.push_back (b);
        dirs.push_back (x);
        dirs.push_back (y);
        a->id = 2 * i;
        b->id = 2 * i + 1;
        a->peer = b;
        b->peer = a;
        a->out = b->in = x;
        b->out = a->in = y;
        x->n = y->n = n;
        x->size = y->size = s;
        int r = n == 0 && choose (2) ? hev_task_channel_new (&a->c, &b->c) : hev_task_channel_new_with_buffers (&a->c, &b->c, s, n);
        CHECK (r == 0, "new", "creating a channel failed without a fault");
        bool uni = choose (3) == 0;
        for (End *e : { a, b })
            if (uni)
                user (e, e == a ? 1 : 2, range (1, 20), choose (3));
            else if (choose (3) == 0) {
                user (e, 1, range (1, 14), choose (2));
                user (e, 2, range (1, 14), choose (2));
                probe ("reader and writer task on one end");
            } else
                user (e, 3, range (1, 20), choose (3));
    }
    maybe_disturbers ();
    at_quiet ([] { check_blocked (); });
    at_quiet ([] {
        check_blocked ();
        closing = true;
        // destroy one end of every pair; tasks blocked on either side must come back
        for (size_t i = 0; i < ends.size (); i += 2) {
            End *e = ends[i + choose (2)];
            if (e->alive && (e->reading || e->writing)) {
                if (choose (2) && !e->peer->reading && !e->peer->writing)
                    e = e->peer;
                else
                    probe ("end destroyed under a blocked task");
            }
            destroy (e);
        }
    });
    at_quiet ([] {
        for (auto e : ends) {
            CHECK (!e->reading && !e->writing, "stuck", "a task is still blocked on a channel one end of which was destroyed");
            // what was buffered can still be read, then reads and writes fail
            if (e->alive) {
                for (uint32_t n = e->in->ok - e->in->received + 1; n; n--)
                    do_read (e);
                do_write (e);
                destroy (e);
            }
        }
    });
    sys_run ();
    sys_fini ();
    lk.check ("after fini");
    note ("%d channels, %u writes, %u reads, %u blocked", np, n_write, n_read, n_blocked);
    nontrivial ();
}
}
namespace p09 {
struct Ch {
    HevTaskChannel *c = nullptr, *p = nullptr;   // ours, peer's
    uint32_t n = 0;
    // to us / from us
    uint32_t in_w = 0, in_r = 0, out_w = 0, out_r = 0, in_ok = 0;
    bool alive = true, peer_alive = true, inset = false;
    bool peer_reads = false, peer_writes = false;
    bool blocked = false;                        // in a blocking write of ours
    Task *peer_task = nullptr;
    int id = 0;
    bool readable () const { return in_w > in_r && (peer_alive || in_ok > in_r); }
    bool writable () const { return peer_alive && n && out_w - out_r < n; }
};
struct Sel {
    HevTaskChannelSelect *s = nullptr;
    std::vector<Ch *> ch;
    Task *t = nullptr;
    int in = 0;               // 1 selecting for read, 2 for write
    int64_t tmo = 0;
    uint64_t t0 = 0;
    bool tight = false;
};
static std::vector<Sel *> sels;
static bool closing;
static uint32_t n_sel, n_hit, n_tmo, n_blk;
static Ch *ready (Sel *s, int dir)
{
    for (auto c : s->ch)
        if (c->inset && c->alive && (dir == 1 ? c->readable () : c->writable ()))
            return c;
    return nullptr;
}
static bool any (Sel *s)
{
    for (auto c : s->ch)
        if (c->inset)
            return true;
    return false;
}
static Ch *do_select (Sel *s, int dir, int tmo)
{
    Ch *rd = ready (s, dir);
    bool members = any (s);
    s->in = dir;
    s->tmo = tmo;
    s->t0 = now ();
    s->t->what = dir == 1 ? "select for read" : "select for write";
    uint64_t tn = turn_no;
    TR ("task %d: select for %s, timeout %d%s", s->t->id, dir == 1 ? "read" : "write", tmo, rd ? " (one is ready)" : "");
    HevTaskChannel *h = dir == 1 ? hev_task_channel_select_read (s->s, tmo) : hev_task_channel_select_write (s->s, tmo);
    s->in = 0;
    s->t->what = "";
    bool sw = turn_no != tn;
    turn_no++;
    n_sel++;
    n_blk += sw;
    if (rd || !members || tmo == 0)
        CHECK (!sw, "blocked", "a select blocked although %s", rd ? "a channel is ready" : !members ? "its set is empty" : "it was asked not to");
    if (!h) {
        TR ("task %d: select returns nothing", s->t->id);
        mix (0x73, 0);
        Ch *x = ready (s, dir);
        CHECK (!rd, "missed", "a select returns nothing although channel %d is ready", rd ? rd->id : 0);
        CHECK (!x, "missed", "a select returns nothing although channel %d is ready", x ? x->id : 0);
        if (members) {
            CHECK (tmo >= 0, "missed", "a select without time-out returns nothing");
            CHECK (now () + 1000000 + M.gran >= s->t0 + ms (tmo), "early", "a select with time-out %d ms gave up after %llu ns", tmo, (unsigned long long)(now () - s->t0));
        }
        n_tmo++;
        return nullptr;
    }
    Ch *c = nullptr;
    for (auto k : s->ch)
        if (k->c == h && k->alive)
            c = k;
    CHECK (c && c->inset, "invented", "a select returns a channel that is not in its set");
    TR ("task %d: select returns channel %d", s->t->id, c->id);
    mix (0x73, c->id + 1);
    if (dir == 1)
        CHECK (c->readable (), "invented", "a select for read returns channel %d without a message", c->id);
    else
        CHECK (c->writable () || !c->peer_alive, "invented", "a select for write returns channel %d without room (%u of %u)", c->id, c->out_w - c->out_r, c->n);
    n_hit++;
    return c;
}
static void rd (Sel *s, Ch *c)
{
    uint32_t v = ~0u;
    uint64_t tn = turn_no;
    self ()->what = "read after select";
    ssize_t r = hev_task_channel_read (c->c, &v, sizeof v);
    self ()->what = "";
    CHECK (turn_no == tn, "blocked", "the read after a select let other tasks run");
    CHECK (r == 4 && v == c->in_r, "data", "the read after a select returns %zd (message %u, expected %u)", r, v, c->in_r);
    c->in_r++;
}
static void wr (Sel *s, Ch *c)
{
    uint32_t v = c->out_w++;
    uint64_t tn = turn_no;
    bool al = c->peer_alive;
    self ()->what = "write after select";
    ssize_t r = hev_task_channel_write (c->c, &v, sizeof v);
    self ()->what = "";
    CHECK (turn_no == tn, "blocked", "the write after a select let other tasks run");
    CHECK (al ? r == 4 : r == -1, "data", "the write after a select returns %zd", r);
}
static void peer (Ch *c, uint32_t nops)
{
    for (uint32_t k = 0; k < nops && !closing && c->alive && c->peer_alive; k++) {
        switch (choose (5)) {
        case 3: yield (); break;
        case 4: hev_task_usleep (1 + noise () % 6000); turn_no++; break;
        }
        if (closing || !c->alive || !c->peer_alive)
            break;
        bool w = c->peer_writes && (!c->peer_reads || choose (2));
        self ()->what = w ? "peer write" : "peer read";
        if (w) {
            uint32_t v = c->in_w++;
            ssize_t r = hev_task_channel_write (c->p, &v, sizeof v);
            turn_no++;
            if (r == 4)
                c->in_ok++;
            else
                CHECK (r == -1 && (!c->alive || !c->peer_alive), "data", "a peer write returns %zd", r);
        } else {
            uint32_t v = ~0u;
            if (c->out_w == c->out_r && choose (2))
                continue;
            ssize_t r = hev_task_channel_read (c->p, &v, sizeof v);
            turn_no++;
            if (r == 4) {
                CHECK (v == c->out_r, "data", "a peer read message %u, expected %u", v, c->out_r);
                c->out_r++;
            } else
                CHECK (r == -1 && (!c->alive || !c->peer_alive), "data", "a peer read returns %zd", r);
        }
        self ()->what = "";
    }
    if (c->peer_alive && choose (3) == 0) {
        TR ("task %d: peer of channel %d destroyed", self ()->id, c->id);
        c->peer_alive = false;
        hev_task_channel_destroy (c->p);
        probe ("peer destroyed during selects");
    }
}
static void selector (Sel *s, uint32_t rounds, uint32_t mode, bool first)
{
    for (auto c : s->ch)
        if (first && choose (4)) {
            hev_task_channel_select_add (s->s, c->c);
            c->inset = true;
        }
    for (uint32_t k = 0; k < rounds && !closing; k++) {
        switch (choose (10)) {
        case 0: yield (); break;
        case 1: {
            // nothing the select is about concerns a task that sleeps
            unsigned us = 1 + noise () % 4000;
            int p0 = s->t->pokes;
            unsigned left = hev_task_usleep (us);
            turn_no++;
            if (s->t->pokes == p0 && !closing)
                CHECK (left == 0, "disturbed", "a task that is not selecting is woken out of its sleep");
            break; }
        case 2: {
            Ch *c = s->ch[choose (s->ch.size ())];
            if (!c->alive)
                break;
            if (c->inset)
                hev_task_channel_select_del (s->s, c->c);
            else
                hev_task_channel_select_add (s->s, c->c);
            c->inset = !c->inset;
            TR ("task %d: channel %d %s the set", s->t->id, c->id, c->inset ? "added to" : "removed from");
            probe ("set changed");
            break; }
        case 3: {
            // direct use of a channel in the set
            Ch *c = s->ch[choose (s->ch.size ())];
            if (!c->alive)
                break;
            if (c->readable ())
                rd (s, c);
            else if (c->writable ())
                wr (s, c);
            break; }
        case 4: {
            // a write that blocks until the peer took something
            Ch *c = s->ch[choose (s->ch.size ())];
            if (!c->alive || !c->peer_alive || !c->peer_reads || c->peer_task->done || choose (3))
                break;
            uint32_t v = c->out_w++;
            s->t->what = "blocking write";
            c->blocked = true;
            ssize_t r = hev_task_channel_write (c->c, &v, sizeof v);
            c->blocked = false;
            s->t->what = "";
            turn_no++;
            if (r < 0)
                CHECK (!c->peer_alive, "data", "a write fails though the peer exists");
            break; }
        }
        if (closing)
            break;
        int dir = mode == 0 ? 1 : mode == 1 ? 2 : 1 + choose (2);
        uint32_t q = choose (4);
        int tmo = q == 0 ? (int)range (1, 30) : q == 1 ? 0 : q == 2 ? -1 : choose (12) == 0 ? 4294968 + (int)choose (3) : (int)(1 + noise () % 200);
        Ch *c = do_select (s, dir, tmo);
        if (c && choose (8)) {
            if (dir == 1)
                rd (s, c);
            else
                wr (s, c);
        }
    }
    // the set outlives the task and is taken over by another one
    if (first && !closing && choose (4) == 3) {
        uint32_t wait = choose (3), more = range (1, 20);
        probe ("set taken over by another task");
        s->t = spawn ([=] {
            for (uint32_t k = 0; k < wait; k++) {
                hev_task_usleep (1 + noise () % 3000);
                turn_no++;
            }
            selector (s, more, mode, false);
        }, rprio ());
        return;
    }
    for (auto c : s->ch) {
        if (c->inset)
            hev_task_channel_select_del (s->s, c->c);
        c->inset = false;
        c->alive = false;
        hev_task_channel_destroy (c->c);
    }
    hev_task_channel_select_destroy (s->s);
    s->s = nullptr;
}
SCENARIO ("P09", select, 1)
{
    machine_random (choose (4));
    at_cleanup ([] { for (auto s : sels) { for (auto c : s->ch) delete c; delete s; } sels.clear (); });
    sels.clear ();
    closing = false;
    n_sel = n_hit = n_tmo = n_blk = 0;
    Leak lk;
    sys_init ();
    int ns = choose (3) ? 1 : 2;
    for (int i = 0; i < ns; i++) {
        Sel *s = new Sel ();
        sels.push_back (s);
        int nc = choose (8) ? range (1, 5) : range (6, 40);
        for (int k = 0; k < nc; k++) {
            static const uint32_t bufs[] = { 1, 0, 2, 3, 6 };
            Ch *c = new Ch ();
            c->id = 100 * i + k;
            c->n = pick (bufs);
            s->ch.push_back (c);
            CHECK (hev_task_channel_new_with_buffers (&c->c, &c->p, 4, c->n) == 0, "new", "creating a channel failed");
            uint32_t m = choose (3);
            c->peer_writes = m != 1;
            c->peer_reads = m != 0;
            uint32_t nops = range (0, 15);
            c->peer_task = spawn ([c, nops] { peer (c, nops); }, rprio ());
        }
        s->s = hev_task_channel_select_new ();
        CHECK (s->s, "new", "creating a select failed");
        uint32_t rounds = range (1, 40);
        uint32_t mode = choose (3);
        s->t = spawn ([s, rounds, mode] { selector (s, rounds, mode, true); }, rprio ());
        // another task uses the same ends without selecting
        if (choose (4) == 3) {
            uint32_t nops = range (1, 30);
            spawn ([s, nops] {
                for (uint32_t k = 0; k < nops && !closing; k++) {
                    if (choose (2)) {
                        hev_task_usleep (1 + noise () % 3000);
                        turn_no++;
                    } else
                        yield ();
                    if (closing || !s->s)
                        break;
                    Ch *c = s->ch[choose (s->ch.size ())];
                    if (!c->alive || c->blocked)
                        continue;
                    if (c->readable () && choose (4)) {
                        rd (s, c);
                        probe ("a channel of the set read by another task");
                    } else if (c->writable ()) {
                        wr (s, c);
                        probe ("a channel of the set written by another task");
                    }
                }
            }, rprio ());
        }
    }
    on_jump = [] (uint64_t from, uint64_t to) {
        for (auto s : sels)
            if (s->in)
                if (Ch *c = ready (s, s->in))
                    CHECK (M.late, "missed", "channel %d is ready, but the task selecting it is not resumed", c->id);
    };
    maybe_disturbers ();
    auto check = [] {
        for (auto s : sels)
            if (s->in) {
                Ch *c = ready (s, s->in);
                CHECK (!c, "missed", "channel %d is ready, but the task selecting it waits", c ? c->id : 0);
                CHECK (s->tmo < 0 || s->tmo > 1000000, "late", "a select with time-out does not end");
            }
    };
    at_quiet ([check] {
        check ();
        // one more cause for everybody who selects
        for (auto s : sels)
            if (s->in == 1)
                for (auto c : s->ch)
                    if (c->inset && c->peer_alive && c->n && c->peer_task->done && choose (2)) {
                        uint32_t v = c->in_w++;
                        TR ("controller: message for channel %d", c->id);
                        c->in_ok++;
                        CHECK (hev_task_channel_write (c->p, &v, 4) == 4, "data", "write fails");
                        break;
                    }
    });
    at_quiet ([check] {
        check ();
        closing = true;
        // blocked selectors and peers must be let go: give each selector a ready channel
        for (auto s : sels) {
            if (s->in) {
                HevTaskChannel *a, *b;
                CHECK (hev_task_channel_new_with_buffers (&a, &b, 4, 2) == 0, "new", "creating a channel failed");
                Ch *c = new Ch ();
                c->id = 999;
                c->n = 2;
                c->c = a;
                c->p = b;
                c->in_w = c->in_ok = 1;
                c->inset = true;
                c->peer_task = s->t;
                s->ch.push_back (c);
                uint32_t v = 0;
                if (s->in == 2 || choose (2)) {
                    CHECK (hev_task_channel_write (b, &v, 4) == 4, "data", "write fails");
                    hev_task_channel_select_add (s->s, a);
                } else {
                    hev_task_channel_select_add (s->s, a);
                    CHECK (hev_task_channel_write (b, &v, 4) == 4, "data", "write fails");
                }
                hev_task_wakeup (s->t->t);
            }
        }
    });
    at_quiet ([] {
        for (auto s : sels)
            for (auto c : s->ch)
                if (c->peer_alive) {
                    c->peer_alive = false;
                    hev_task_channel_destroy (c->p);
                }
    });
    sys_run ();
    for (auto s : sels)
        for (auto c : s->ch)
            if (c->peer_alive)
                hev_task_channel_destroy (c->p);
    sys_fini ();
    lk.check ("after fini");
    note ("%d selectors, %u selects: %u found one, %u timed out, %u blocked", ns, n_sel, n_hit, n_tmo, n_blk);
    nontrivial ();
}
}
