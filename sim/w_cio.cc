// P15 composable streams, P16 relays between them, P22 reference counts.
#include "w_cio.h"
namespace w {
const char *const cread_name[4] = { "stream read", "stream read-exact", "stream readv", "stream readv-exact" };
const char *const cwrite_name[4] = { "stream write", "stream write-exact", "stream writev", "stream writev-exact" };
HevTaskCIO *bottom_new (int fdi, int fdo, bool sock)
{
    return sock ? (HevTaskCIO *)hev_task_cio_socket_new (AF_UNIX, fdi) : (HevTaskCIO *)hev_task_cio_fd_new (fdi, fdo);
}
void stack_push (Stack &s, bool wonly)
{
    static const size_t sz[] = { 16, 0, 1, 2, 5, 64, 300 };
    R.immune++;
    Layer x = { nullptr, 1, 0, 0 };
    if (choose (6) == 5) {
        x.kind = 2;
        x.c = g_pass_new ();
    } else {
        x.r = wonly ? 0 : pick (sz);
        x.w = pick (sz);
        x.c = (HevTaskCIO *)hev_task_cio_buffer_new (x.r, x.w);
    }
    R.immune--;
    CHECK (x.c, "new", "creating a stream layer failed");
    HevTaskCIO *t = hev_task_cio_push (x.c, s.top ());
    CHECK (t == x.c, "push", "pushing a layer does not return it");
    s.l.push_back (x);
    TR ("layer %zu: %s r %zu w %zu", s.l.size () - 1, x.kind == 2 ? "pass" : "buffer", x.r, x.w);
}
void stack_pop (Stack &s)
{
    HevTaskCIO *n = hev_task_cio_pop (s.top ());
    s.l.pop_back ();
    CHECK (n == s.top (), "pop", "popping a layer does not return the next one");
    TR ("layer popped, %zu left", s.l.size ());
}
void stack_open (Stack &s, int fdi, int fdo, bool sock, uint32_t max_layers)
{
    R.immune++;
    Layer b = { bottom_new (fdi, fdo, sock), 0, 0, 0 };
    R.immune--;
    CHECK (b.c, "new", "creating a stream failed");
    s.fdi = fdi;
    s.fdo = fdo;
    s.l.push_back (b);
    uint32_t n = choose (max_layers + 1);
    for (uint32_t i = 0; i < n; i++)
        stack_push (s);
    CHECK (hev_task_cio_get_fd (s.top (), 0) == fdi && hev_task_cio_get_fd (s.top (), 1) == fdo, "fd", "a stream over %d/%d reports other descriptors", fdi, fdo);
}
void stack_close (Stack &s)
{
    uint64_t ci = s.fdi >= 0 ? closes_of (s.fdi) : 0, co = s.fdo >= 0 ? closes_of (s.fdo) : 0;
    g_unref (s.top ());
    s.l.clear ();
    if (s.fdi >= 0)
        CHECK (closes_of (s.fdi) == ci + 1, "close", "dropping a stream closes descriptor %d %lu times", s.fdi, (unsigned long)(closes_of (s.fdi) - ci));
    if (s.fdo >= 0 && s.fdo != s.fdi)
        CHECK (closes_of (s.fdo) == co + 1, "close", "dropping a stream closes descriptor %d %lu times", s.fdo, (unsigned long)(closes_of (s.fdo) - co));
}
ssize_t cio_read_op (int op, HevTaskCIO *c, char *b, size_t n, HevTaskIOYielder y, void *yd)
{
    ssize_t r;
    Task *me = self ();
    const char *old = me ? me->what : "";
    if (me) me->what = cread_name[op];
    if (op >= 2) {
        Vec v (n);
        if (op == 2)
            r = hev_task_cio_readv (c, v.v.data (), v.v.size (), y, yd);
        else
            r = hev_task_cio_readv_exact (c, v.v.data (), v.v.size (), y, yd);
        v.check (cread_name[op]);
        v.get (b);
    } else {
        std::string g (n + 16, (char)0xc5);
        if (op == 0)
            r = hev_task_cio_read (c, &g[8], n, y, yd);
        else
            r = hev_task_cio_read_exact (c, &g[8], n, y, yd);
        for (int i = 0; i < 8; i++)
            CHECK ((uint8_t)g[i] == 0xc5 && (uint8_t)g[g.size () - 1 - i] == 0xc5, "memory", "%s wrote outside the given buffer", cread_name[op]);
        memcpy (b, &g[8], n);
    }
    if (me) me->what = old;
    turn_no++;
    return r;
}
ssize_t cio_write_op (int op, HevTaskCIO *c, const char *b, size_t n, HevTaskIOYielder y, void *yd)
{
    ssize_t r;
    Task *me = self ();
    const char *old = me ? me->what : "";
    if (me) me->what = cwrite_name[op];
    if (op >= 2) {
        Vec v (n);
        v.put (b);
        if (op == 2)
            r = hev_task_cio_writev (c, v.v.data (), v.v.size (), y, yd);
        else
            r = hev_task_cio_writev_exact (c, v.v.data (), v.v.size (), y, yd);
        v.check (cwrite_name[op]);
    } else if (op == 0)
        r = hev_task_cio_write (c, b, n, y, yd);
    else
        r = hev_task_cio_write_exact (c, b, n, y, yd);
    if (me) me->what = old;
    turn_no++;
    return r;
}
}
using namespace w;
namespace p15 {
static void breath ()
{
    switch (choose (6)) {
    case 0: case 1: case 2: break;
    case 3: yield (); break;
    case 4: hev_task_usleep (1 + noise () % 4000); turn_no++; break;
    case 5: hev_task_sleep (range (1, 30)); turn_no++; break;
    }
}
static size_t amount (uint64_t left)
{
    static const size_t sz[] = { 16, 1, 3, 64, 200, 1000 };
    size_t n = 1 + noise () % pick (sz);
    return left && n > left ? left : n;
}
// state of one user of a stack
struct Use {
    Stack s;
    Dir *out = nullptr, *in = nullptr;
    FileP fi, fo;
    bool can_fail = false;     // errors may be injected at the bottom
    bool wdone = false, rdone = false, wok = true;
    size_t peeked = 0;         // bytes seen by the last peek and not read yet
    int users = 1;
};
static std::vector<Use *> us;
static void arm (Use *u, FileP f, int *err)
{
    static const int errs[] = { EIO, ENOMEM, EINTR, ENOBUFS, ETIMEDOUT };
    *err = 0;
    if (!u->can_fail || choose (12) != 11)
        return;
    *err = pick (errs);
    f->fail_err = *err;
    f->fail_after = choose (4);
}
static bool fired (FileP f, int err)
{
    bool r = err && f->fail_after < 0;
    if (!r)
        f->fail_after = -1;
    return r;
}
static void handed_on (Use *u, const char *when)
{
    Dir *d = u->out;
    if (d->broken)
        return;
    uint64_t in = u->fo->tx->in;
    CHECK (in <= d->sent, "content", "%s: %lu bytes reached the bottom, only %lu were written", d->name, (unsigned long)in, (unsigned long)d->sent);
    CHECK (d->sent - in <= u->s.wcap (), "held", "%s: %lu bytes are held back %s by layers of %zu bytes", d->name, (unsigned long)(d->sent - in), when, u->s.wcap ());
}
// with two buffers on top of each other the upper one may see a part taken instead of an error and go on until the stream breaks
static bool masked (Use *u, int en)
{
    return u->s.wlayers () > 1 && u->out->broken && (en == EPIPE || en == ECONNRESET);
}
// returns true once flushed
static bool flush (Use *u)
{
    Dir *d = u->out;
    int err;
    arm (u, u->fo, &err);
    self ()->what = "stream flush";
    TR ("%s: flush at %lu", d->name, (unsigned long)d->sent);
    uint64_t t0 = turn_no;
    int r = hev_task_cio_flush (u->s.top (), NULL, NULL);
    turn_no++;
    TR ("%s: flush returns %d", d->name, r);
    if (turn_no > t0 + 1) { nontrivial (); probe ("flush-blocked"); }
    self ()->what = "";
    bool fi = fired (u->fo, err);
    if (r == 0) {
        CHECK (!fi || u->s.wlayers () > 1, "error", "%s: flush succeeds although the bottom failed with %s", d->name, ename (err));
        if (!d->broken)
            CHECK (u->fo->tx->in == d->sent, "flush", "%s: after a successful flush %lu of %lu bytes reached the bottom", d->name, (unsigned long)u->fo->tx->in, (unsigned long)d->sent);
        probe ("flushed");
        return true;
    }
    CHECK (r == -1, "result", "%s: flush returns %d", d->name, r);
    if (fi && !masked (u, g_cio_err (u->s.top ()))) {
        CHECK (g_cio_err (u->s.top ()) == err, "error", "%s: flush failed with %s but reports %s", d->name, ename (err), ename (g_cio_err (u->s.top ())));
        probe ("flush-error");
        return false;
    }
    CHECK (d->broken, "error", "%s: flush fails with %s although the stream is intact", d->name, ename (g_cio_err (u->s.top ())));
    u->wok = false;
    return false;
}
static void write_some (Use *u)
{
    Dir *d = u->out;
    HevTaskCIO *c = u->s.top ();
    if (d->sent >= d->total) {
        while (u->wok && !flush (u))
            ;
        u->wdone = true;
        d->ended = true;
        TR ("%s: writer ends after %lu bytes", d->name, (unsigned long)d->sent);
        return;
    }
    if (choose (5) == 4)
        flush (u);
    if (!u->wok) {
        u->wdone = true;
        return;
    }
    size_t n = amount (d->total - d->sent);
    if (choose (24) == 23)
        n = 0;
    int op = choose (4), err;
    std::string b = d->text (d->sent, n);
    arm (u, u->fo, &err);
    uint64_t t0 = turn_no;
    TR ("%s: %s of %zu at %lu", d->name, cwrite_name[op], n, (unsigned long)d->sent);
    ssize_t r = cio_write_op (op, c, b.data (), n, NULL, NULL);
    bool fi = fired (u->fo, err);
    TR ("%s: %s returns %ld", d->name, cwrite_name[op], (long)r);
    if (turn_no > t0 + 1) { nontrivial (); probe ("write-blocked"); }
    if (r > 0) {
        CHECK ((size_t)r <= n, "count", "%s: %s of %zu bytes reports %ld", d->name, cwrite_name[op], n, (long)r);
        if ((op & 1) && (size_t)r < n) {
            probe ("exact-write-short");
            CHECK (d->broken || fi, "exact", "%s: %s of %zu bytes returned %ld without an error", d->name, cwrite_name[op], n, (long)r);
        }
        d->sent += r;
        handed_on (u, "after a write");
    } else if (r == 0) {
        CHECK (n == 0, "count", "%s: %s of %zu bytes returns 0", d->name, cwrite_name[op], n);
    } else {
        CHECK (r == -1, "result", "%s: %s returns %ld", d->name, cwrite_name[op], (long)r);
        int en = g_cio_err (c);
        if (fi && !masked (u, en)) {
            CHECK (en == err, "error", "%s: %s failed with %s but reports %s", d->name, cwrite_name[op], ename (err), ename (en));
            probe ("write-error");
        } else {
            CHECK (d->broken, "error", "%s: %s fails with %s although the stream is intact", d->name, cwrite_name[op], ename (en));
            CHECK (en == EPIPE || en == ECONNRESET, "error", "%s: %s on a broken stream reports %s", d->name, cwrite_name[op], ename (en));
            probe ("write-broken");
            u->wok = false;
        }
    }
    if (u->users == 1 && !u->in && u->wok && choose (12) == 11 && u->s.l.size () > 1 && flush (u))
        stack_pop (u->s);
    if (u->users == 1 && !u->in && choose (16) == 15)
        stack_push (u->s, true);
}
static void peek (Use *u)
{
    Dir *d = u->in;
    HevTaskCIOBuffer *c = (HevTaskCIOBuffer *)u->s.top ();
    size_t rs = u->s.l.back ().r, n = 1 + noise () % (rs + 3), got = 0;
    bool avail = u->fi->rx->q.size () && !u->fi->rx->dead;
    uint64_t t0 = turn_no;
    if (choose (2)) {
        std::string b (n + 16, (char)0xc5);
        ssize_t r = hev_task_cio_buffer_peek (c, &b[8], n);
        CHECK (r >= 0 && (size_t)r <= n, "peek", "%s: peek of %zu bytes returns %ld", d->name, n, (long)r);
        got = r;
        for (size_t i = 0; i < 8; i++)
            CHECK ((uint8_t)b[i] == 0xc5 && (uint8_t)b[8 + got + i] == 0xc5, "memory", "peek wrote outside what it reports");
        d->verify (&b[8], got, d->got, "peek");
    } else {
        struct iovec v[2];
        int k = hev_task_cio_buffer_peekv (c, v);
        CHECK (k >= 0 && k <= 2, "peek", "%s: peekv returns %d parts", d->name, k);
        for (int i = 0; i < k; i++) {
            d->verify ((char *)v[i].iov_base, v[i].iov_len, d->got + got, "peekv");
            got += v[i].iov_len;
        }
        n = rs;
        CHECK (got <= rs, "peek", "%s: peekv shows %zu bytes of a buffer of %zu", d->name, got, rs);
    }
    CHECK (turn_no == t0, "peek", "peek gave up the processor");
    CHECK (got >= std::min (n, u->peeked), "peek", "%s: peek shows %zu bytes, %zu were seen before and not read", d->name, got, u->peeked);
    if (avail)
        CHECK (got > 0, "peek", "%s: bytes wait but peek shows none", d->name);
    if (got > u->peeked)
        u->peeked = got;
    if (got)
        probe ("peeked");
}
static void read_some (Use *u)
{
    Dir *d = u->in;
    HevTaskCIO *c = u->s.top ();
    if (u->s.peekable () && !d->broken && choose (3) == 2) {
        int64_t fa = u->fi->fail_after;
        peek (u);
        u->fi->fail_after = fa;
    }
    size_t n = amount (0);
    if (choose (24) == 23)
        n = 0;
    int op = choose (4), err;
    std::string b (n + 1, 0);
    arm (u, u->fi, &err);
    uint64_t t0 = turn_no;
    TR ("%s: %s of %zu at %lu", d->name, cread_name[op], n, (unsigned long)d->got);
    ssize_t r = cio_read_op (op, c, &b[0], n, NULL, NULL);
    bool fi = fired (u->fi, err);
    TR ("%s: %s returns %ld", d->name, cread_name[op], (long)r);
    if (turn_no > t0 + 1) {
        nontrivial ();
        probe ("read-blocked");
        CHECK (n, "count", "%s: %s of no bytes blocked", d->name, cread_name[op]);
    }
    if (r > 0) {
        CHECK ((size_t)r <= n, "count", "%s: %s of %zu bytes reports %ld", d->name, cread_name[op], n, (long)r);
        d->take (b.data (), r, cread_name[op]);
        u->peeked -= std::min (u->peeked, (size_t)r);
        if ((op & 1) && (size_t)r < n) {
            probe ("exact-read-short");
            CHECK (d->broken || fi || d->finished (), "exact", "%s: %s of %zu bytes returned %ld before the end of the stream", d->name, cread_name[op], n, (long)r);
        }
    } else if (r == 0) {
        if (n == 0)
            return;
        CHECK (d->broken || d->finished (), "end", "%s: %s reports the end of the stream at %lu of %lu bytes%s", d->name, cread_name[op], (unsigned long)d->got, (unsigned long)d->sent, d->ended ? "" : " while the writer has not ended");
        CHECK (!u->peeked || d->broken, "end", "%s: %s reports the end although %zu bytes were seen ahead", d->name, cread_name[op], u->peeked);
        probe ("read-end");
        u->rdone = true;
    } else {
        CHECK (r == -1, "result", "%s: %s returns %ld", d->name, cread_name[op], (long)r);
        int en = g_cio_err (c);
        if (fi) {
            CHECK (en == err, "error", "%s: %s failed with %s but reports %s", d->name, cread_name[op], ename (err), ename (en));
            probe ("read-error");
        } else {
            CHECK (d->broken, "error", "%s: %s fails with %s although the stream is intact", d->name, cread_name[op], ename (en));
            CHECK (en == ECONNRESET, "error", "%s: %s on a broken stream reports %s", d->name, cread_name[op], ename (en));
            probe ("read-broken");
            u->rdone = true;
        }
    }
}
static void add (int fd, int ev) { R.immune++; CHECK (hev_task_add_fd (hev_task_self (), fd, ev) == 0, "registration", "registering a descriptor failed"); R.immune--; }
static void del (int fd) { CHECK (hev_task_del_fd (hev_task_self (), fd) == 0, "registration", "removing a registration failed"); }
static void done (Use *u)
{
    if (--u->users)
        return;
    u->fi = u->fo = nullptr;
    stack_close (u->s);
}
static void both (Use *u)
{
    bool one = u->s.fdi == u->s.fdo;
    add (u->s.fdi, one ? POLLIN | POLLOUT : POLLIN);
    if (!one)
        add (u->s.fdo, POLLOUT);
    while (!u->wdone || !u->rdone) {
        breath ();
        if (!u->wdone && (u->rdone || choose (2) == 0)) {
            write_some (u);
            if (u->wdone)
                sim_shutdown (u->s.fdo, SHUT_WR);
        } else
            read_some (u);
    }
    del (u->s.fdi);
    if (!one)
        del (u->s.fdo);
    done (u);
}
static void writer (Use *u, bool shut)
{
    add (u->s.fdo, POLLOUT);
    while (!u->wdone) {
        write_some (u);
        breath ();
    }
    if (shut)
        sim_shutdown (u->s.fdo, SHUT_WR);
    del (u->s.fdo);
    done (u);
}
static void reader (Use *u)
{
    add (u->s.fdi, POLLIN);
    while (!u->rdone) {
        read_some (u);
        breath ();
    }
    del (u->s.fdi);
    done (u);
}
SCENARIO ("P15", streams, 10)
{
    static const uint64_t tot[] = { 100, 0, 1, 20, 400, 1500 };
    bool faults = choose (4);
    machine_random (faults);
    N.random_caps = choose (2);
    set_step_limit (600000);
    at_cleanup ([] { for (auto u : us) delete u; us.clear (); });
    Leak lk;
    sys_init ();
    uint32_t n = 1 + choose (3);
    for (uint32_t i = 0; i < n; i++) {
        Use *u = new Use ();
        us.push_back (u);
        Dir *a = dir_new ("in", pick (tot)), *b = dir_new ("out", pick (tot));
        switch (choose (5)) {
        case 0: {  // one task, one socket
            int fd;
            StreamOpt o;
            random_stream_opt (o);
            Peer *p = peer_new (ext_stream (&fd, o), a, b);
            peer_random (p, faults);
            u->in = a;
            u->out = b;
            u->fi = u->fo = file (fd);
            stack_open (u->s, fd, fd, choose (2), 3);
            spawn ([=] { both (u); }, rprio ());
            peer_go (p);
            break; }
        case 1: {  // a reader and a writer task share the stack
            int fd;
            StreamOpt o;
            random_stream_opt (o);
            Peer *p = peer_new (ext_stream (&fd, o), a, b);
            peer_random (p, faults);
            u->in = a;
            u->out = b;
            u->fi = u->fo = file (fd);
            R.immune++;
            int fd2 = sim_dup (fd);
            R.immune--;
            stack_open (u->s, fd, fd2, false, 3);
            u->users = 2;
            spawn ([=] { writer (u, true); }, rprio ());
            spawn ([=] { reader (u); }, rprio ());
            peer_go (p);
            break; }
        case 2: {  // one way out
            int fd;
            Peer *p;
            if (choose (2)) {
                StreamOpt o;
                random_stream_opt (o);
                p = peer_new (ext_stream (&fd, o), nullptr, b);
                peer_random (p, faults);
            } else {
                p = peer_new (ext_pipe_out (&fd, 1 + noise () % 300), nullptr, b);
                peer_random (p, faults);
                if (p->kill == 1)
                    p->kill = 2;
            }
            u->out = b;
            u->can_fail = faults;
            u->fo = file (fd);
            stack_open (u->s, -1, fd, false, 3);
            spawn ([=] { writer (u, false); }, rprio ());
            peer_go (p);
            break; }
        case 3: {  // one way in
            int fd;
            Peer *p;
            if (choose (2)) {
                StreamOpt o;
                random_stream_opt (o);
                p = peer_new (ext_stream (&fd, o), a, nullptr);
                peer_random (p, faults);
            } else {
                p = peer_new (ext_pipe_in (&fd, 1 + noise () % 300), a, nullptr);
                peer_random (p, false);
            }
            u->in = a;
            u->can_fail = faults;
            u->fi = file (fd);
            stack_open (u->s, fd, -1, false, 3);
            spawn ([=] { reader (u); }, rprio ());
            peer_go (p);
            break; }
        case 4: {  // two stacks back to back
            int p[2];
            R.immune++;
            sim_pipe2 (p, O_NONBLOCK);
            R.immune--;
            Use *v = new Use ();
            us.push_back (v);
            u->out = v->in = b;
            u->can_fail = v->can_fail = faults;
            u->fo = file (p[1]);
            v->fi = file (p[0]);
            stack_open (u->s, -1, p[1], false, 3);
            stack_open (v->s, p[0], -1, false, 3);
            spawn ([=] { writer (u, false); }, rprio ());
            spawn ([=] { reader (v); }, rprio ());
            break; }
        }
    }
    maybe_disturbers ();
    sys_run ();
    world_ends ();
    for (auto u : us) {
        if (u->out && !u->out->broken)
            CHECK (u->out->got == u->out->sent && u->out->sent == u->out->total, "complete", "%s: %lu of %lu bytes written, %lu arrived", u->out->name, (unsigned long)u->out->sent, (unsigned long)u->out->total, (unsigned long)u->out->got);
        if (u->in && !u->in->broken)
            CHECK (u->in->got == u->in->sent, "complete", "%s: %lu bytes sent, %lu arrived", u->in->name, (unsigned long)u->in->sent, (unsigned long)u->in->got);
    }
    sys_fini ();
    lk.check ("after fini");
}
SCENARIO ("P15", null_stream, 1)
{
    machine_random (choose (2));
    Leak lk;
    sys_init ();
    spawn ([] {
        Stack s;
        R.immune++;
        s.l.push_back (Layer{ (HevTaskCIO *)hev_task_cio_null_new (), 0, 0, 0 });
        R.immune--;
        CHECK (s.top (), "new", "creating a stream failed");
        uint32_t n = choose (4);
        for (uint32_t i = 0; i < n; i++)
            stack_push (s);
        uint32_t k = 1 + choose (20);
        for (uint32_t i = 0; i < k; i++) {
            size_t len = amount (0);
            std::string b (len, 'x');
            int op = choose (4);
            uint64_t t0 = turn_no;
            if (choose (3) == 2) {
                ssize_t r = cio_read_op (op, s.top (), &b[0], len, NULL, NULL);
                CHECK (r == 0, "null", "%s of %zu bytes from the null stream returns %ld", cread_name[op], len, (long)r);
            } else {
                ssize_t r = cio_write_op (op, s.top (), b.data (), len, NULL, NULL);
                CHECK (r > 0 && (size_t)r <= len && ((size_t)r == len || !(op & 1)), "null", "%s of %zu bytes to the null stream returns %ld", cwrite_name[op], len, (long)r);
            }
            CHECK (turn_no == t0 + 1, "null", "the null stream blocks");
            if (choose (4) == 3)
                CHECK (hev_task_cio_flush (s.top (), NULL, NULL) == 0, "null", "flushing to the null stream fails");
            CHECK (hev_task_cio_get_fd (s.top (), choose (2)) < 0, "null", "the null stream reports a descriptor");
            char a[64];
            if (choose (4) == 3) {
                CHECK (hev_task_cio_write_dgram (s.top (), b.data (), len, a, NULL, NULL) == (ssize_t)len, "null", "a datagram write to the null stream is short");
                CHECK (hev_task_cio_read_dgram (s.top (), &b[0], len, a, NULL, NULL) == 0, "null", "a datagram read from the null stream returns data");
                struct iovec v = { &b[0], len };
                CHECK (hev_task_cio_writev_dgram (s.top (), &v, 1, a, NULL, NULL) == (ssize_t)len, "null", "a datagram write to the null stream is short");
                CHECK (hev_task_cio_readv_dgram (s.top (), &v, 1, a, NULL, NULL) == 0, "null", "a datagram read from the null stream returns data");
            }
            breath ();
        }
        stack_close (s);
        nontrivial ();
    });
    spawn ([] { for (int i = 0; i < 10; i++) yield (); });
    sys_run ();
    sys_fini ();
    lk.check ("after fini");
}
}
namespace p16 {
struct Side { Stack s; FileP fi, fo; Peer *pi = nullptr, *po = nullptr; };
struct Relay {
    Side a, b;
    Dir *f, *g, *fo, *go;      // as in P14
    bool running = false, stopped = false, plain = false;
    int stop_after = -1, yields = 0;
};
static std::vector<Relay *> rs;
static void quiet_check (Relay *r)
{
    if (!r->running)
        return;
    struct { FileP in, out; const char *n; } ds[2] = { { r->a.fi, r->b.fo, "forward" }, { r->b.fi, r->a.fo, "backward" } };
    for (auto &x : ds) {
        bool room = x.out->tx->writable () && !x.out->tx->rshut && !x.out->tx->dead;
        if (!room || x.in->rx->dead)
            continue;
        CHECK (x.in->rx->q.empty (), "stalled", "%s: %zu bytes wait at the input and there is room at the output, but the relay sleeps", x.n, x.in->rx->q.size ());
        CHECK (x.in->rx->out == x.out->tx->in, "stalled", "%s: the relay took %lu bytes, passed on %lu and sleeps although there is room", x.n, (unsigned long)x.in->rx->out, (unsigned long)x.out->tx->in);
        probe ("checked-idle");
    }
}
static int yielder (HevTaskYieldType type, void *p)
{
    Relay *r = (Relay *)p;
    r->yields++;
    hev_task_yield (type);
    turn_no++;
    if (r->stop_after >= 0 && r->yields > r->stop_after) {
        r->stopped = true;
        return 1;
    }
    return 0;
}
static void open_side (Side &s, Dir *out, Dir *in, bool faults, uint32_t layers)
{
    int i, o;
    bool sock = false;
    StreamOpt so;
    random_stream_opt (so);
    switch (choose (3)) {
    case 0: {
        s.pi = s.po = peer_new (ext_stream (&i, so), out, in);
        peer_random (s.pi, faults);
        o = i;
        sock = choose (2);
        break; }
    case 1:
        s.pi = peer_new (ext_stream (&i, so), out, nullptr);
        random_stream_opt (so);
        s.po = peer_new (ext_stream (&o, so), nullptr, in);
        peer_random (s.pi, faults);
        peer_random (s.po, faults);
        break;
    default:
        s.pi = peer_new (ext_pipe_in (&i, 1 + noise () % 300), out, nullptr);
        s.po = peer_new (ext_pipe_out (&o, 1 + noise () % 300), nullptr, in);
        peer_random (s.pi, false);
        peer_random (s.po, faults);
        if (s.po->kill == 1)
            s.po->kill = 2;
    }
    s.fi = file (i);
    s.fo = file (o);
    stack_open (s.s, i, o, sock, layers);
}
static void reg_side (Side &s)
{
    R.immune++;
    HevTask *t = hev_task_self ();
    bool one = s.s.fdi == s.s.fdo;
    CHECK (hev_task_add_fd (t, s.s.fdi, one ? POLLIN | POLLOUT : POLLIN) == 0, "registration", "registering a descriptor failed");
    if (!one)
        CHECK (hev_task_add_fd (t, s.s.fdo, POLLOUT) == 0, "registration", "registering a descriptor failed");
    R.immune--;
}
static void close_side (Side &s)
{
    hev_task_del_fd (hev_task_self (), s.s.fdi);
    if (s.s.fdi != s.s.fdo)
        hev_task_del_fd (hev_task_self (), s.s.fdo);
    s.fi = s.fo = nullptr;
    stack_close (s.s);
}
static void relay (Relay *r, size_t buf, bool use_yielder, bool refuse)
{
    reg_side (r->a);
    reg_side (r->b);
    r->running = true;
    self ()->what = "stream splice";
    uint64_t f0 = R.faults[F_ALLOC_FAIL];
    if (refuse && !r->plain) {
        M.alloc_fail_at = R.allocs + choose (2);
        M.alloc_fail_n = 1;
    }
    size_t fd0 = open_fds ();
    TR ("stream splice starts, buffer %zu", buf);
    hev_task_cio_splice (r->a.s.top (), r->b.s.top (), buf, use_yielder ? yielder : NULL, r);
    turn_no++;
    TR ("stream splice ends after %d yields", r->yields);
    r->running = false;
    self ()->what = "";
    M.alloc_fail_at = -1;
    if (R.faults[F_ALLOC_FAIL] > f0 && refuse && !r->plain) {
        probe ("refused");
        CHECK (r->a.fi->rx->out == 0 && r->b.fi->rx->out == 0, "refused", "a refused relay took bytes");
        r->stopped = true;
    }
    if (rs.size () == 1)
        CHECK (open_fds () == fd0, "leak", "the relay leaves %ld descriptors behind", (long)(open_fds () - fd0));
    Dir *f = r->f, *g = r->g;
    bool f_end = r->a.fi->rx->fin && r->a.fi->rx->q.empty (), g_end = r->b.fi->rx->fin && r->b.fi->rx->q.empty ();
    bool f_all = f_end && f->ended && r->b.fo->tx->in == f->sent, g_all = g_end && g->ended && r->a.fo->tx->in == g->sent;
    bool err = f->broken || r->fo->broken || g->broken || r->go->broken;
    if (!r->stopped && !err) {
        CHECK (f_all || g_all, "complete", "the relay ended before any side was finished: forward %lu of %lu bytes passed on, backward %lu of %lu", (unsigned long)r->b.fo->tx->in, (unsigned long)f->sent, (unsigned long)r->a.fo->tx->in, (unsigned long)g->sent);
        probe ("complete");
    }
    r->fo->sent = r->b.fo->tx->in;
    r->go->sent = r->a.fo->tx->in;
    close_side (r->a);
    close_side (r->b);
}
SCENARIO ("P16", stream_splice, 4)
{
    static const uint64_t tot[] = { 60, 0, 1, 300, 1500 };
    static const size_t bufs[] = { 4096, 1, 2, 7, 64, 600 };
    bool faults = choose (4);
    machine_random (faults);
    N.random_caps = choose (2);
    at_cleanup ([] { for (auto r : rs) delete r; rs.clear (); });
    set_step_limit (8000000);
    Leak lk;
    sys_init ();
    uint32_t n = 1 + choose (3) / 2;
    for (uint32_t i = 0; i < n; i++) {
        Relay *r = new Relay ();
        rs.push_back (r);
        uint64_t tf = pick (tot), tg = pick (tot);
        r->f = dir_new ("forward", tf);
        r->g = dir_new ("backward", tg);
        r->fo = dir_new ("forward out", tf);
        r->go = dir_new ("backward out", tg);
        r->fo->salt = r->f->salt;
        r->go->salt = r->g->salt;
        open_side (r->a, r->f, r->go, faults, 3);
        open_side (r->b, r->g, r->fo, faults, 3);
        r->plain = r->a.s.l.size () == 1 && r->b.s.l.size () == 1;
        size_t buf = pick (bufs);
        bool y = choose (2), refuse = faults && choose (12) == 11;
        if (y && choose (4) == 3)
            r->stop_after = choose (20);
        Peer *ps[] = { r->a.pi, r->a.po, r->b.pi, r->b.po };
        for (int k = 0; k < 4; k++)
            if (!(k & 1) || ps[k] != ps[k - 1])
                peer_go (ps[k]);
        if (choose (3) == 2 && !r->a.pi->kill) r->a.pi->keep_open = true;
        if (choose (3) == 2 && !r->b.pi->kill) r->b.pi->keep_open = true;
        if (choose (6) == 5 && !r->a.po->kill) r->a.po->deaf = true;
        if (choose (6) == 5 && !r->b.po->kill) r->b.po->deaf = true;
        spawn ([=] { relay (r, buf, y, refuse); }, rprio ());
    }
    maybe_disturbers ();
    if (choose (2))
        spawn ([] { for (int i = 0; i < 30; i++) yield (); }, rprio ());
    at_quiet ([] {
        for (auto r : rs) {
            quiet_check (r);
            if (r->a.po->deaf || r->b.po->deaf) {
                peer_listen (r->a.po);
                peer_listen (r->b.po);
                probe ("deaf");
                continue;
            }
            if (choose (2)) peer_end (r->a.pi); else peer_end (r->b.pi);
        }
    });
    at_quiet ([] {
        for (auto r : rs) {
            quiet_check (r);
            peer_end (r->a.pi);
            peer_end (r->b.pi);
        }
    });
    sys_run ();
    world_ends ();
    for (auto r : rs) {
        if (r->f->total > 8 || r->g->total > 8)
            nontrivial ();
        if (!r->fo->broken && !r->f->broken)
            CHECK (r->fo->got == r->fo->sent, "complete", "forward: %lu bytes passed on, %lu arrived", (unsigned long)r->fo->sent, (unsigned long)r->fo->got);
        if (!r->go->broken && !r->g->broken)
            CHECK (r->go->got == r->go->sent, "complete", "backward: %lu bytes passed on, %lu arrived", (unsigned long)r->go->sent, (unsigned long)r->go->got);
    }
    sys_fini ();
    lk.check ("after fini");
}
}
