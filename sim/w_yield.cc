// P23 caller-supplied yielders.
#include "w_cio.h"
#include <set>
using namespace w;
namespace p23 {
// One operation under way with a yielder.
struct Y {
    const char *op = "";
    std::set<int> fds;             // descriptors it works on
    bool relay = false;
    int stop_at = -1;              // asks to stop at the n-th call
    int stop_value = 1;
    uint32_t mode = 0;             // how it waits
    bool on = false, in = false, stopped = false, spun = false;
    int calls = 0;
    size_t idle = 0, idle_max = 0; // yields without progress
    uint64_t moved = 0;            // successful transfers since the last call
    HevTask *task = nullptr;
    const std::string *buf = nullptr; // watched while abandoned
    std::string at_stop;
    const Vec *vec = nullptr;
};
static std::vector<Y *> all;
static Y *cur;                     // the operation whose code runs right now
static std::string shot (Y *y)
{
    if (y->buf)
        return *y->buf;
    std::string s;
    if (y->vec)
        for (auto &p : y->vec->part)
            s += p;
    return s;
}
static void watch (const char *name, int fd, long res)
{
    if (!strcmp (name, "epoll_wait")) {
        if (cur && cur->on && !cur->in)
            fail ("yielder", "%s gave up the processor without asking its yielder (%d calls so far)", cur->op, cur->calls);
        return;
    }
    if (!cur || !cur->on || cur->in)
        return;
    if (cur->relay && !cur->stopped && res >= 0)
        cur->moved++;              // the end of a stream counts as progress
    if (!cur->fds.count (fd))
        return;
    if (cur->stopped)
        fail ("abandoned", "%s still uses descriptor %d (%s) after its yielder asked to stop", cur->op, fd, name);
}
static int yfn (HevTaskYieldType type, void *p)
{
    CHECK (p && std::find (all.begin (), all.end (), (Y *)p) != all.end (), "yielder", "a yielder is called with other data than given");
    Y *y = (Y *)p;
    CHECK (y->on, "yielder", "%s: its yielder is called after it ended", y->op);
    CHECK (y == cur && hev_task_self () == y->task, "yielder", "%s: its yielder is called from another task", y->op);
    CHECK (!y->stopped, "abandoned", "%s: its yielder is called again after it asked to stop", y->op);
    y->calls++;
    TR ("%s: yielder called (%s)", y->op, type == HEV_TASK_WAITIO ? "wait" : type == HEV_TASK_YIELD ? "yield" : "?");
    if (!y->relay)
        CHECK (type == HEV_TASK_WAITIO, "kind", "%s would block but asks for another kind of wait (%d)", y->op, type);
    else {
        CHECK (type == HEV_TASK_WAITIO || type == HEV_TASK_YIELD, "kind", "%s asks for kind %d", y->op, type);
        // bytes held in layers can move without any call to the system
        y->idle = type == HEV_TASK_YIELD && !y->moved ? y->idle + 1 : 0;
        CHECK (y->idle <= y->idle_max, "kind", "%s asks to yield between pieces of work but has moved nothing", y->op);
        if (type == HEV_TASK_YIELD)
            probe ("relay-yield");
        else
            probe ("relay-wait");
    }
    y->moved = 0;
    if (y->calls == y->stop_at) {
        y->stopped = true;
        y->at_stop = shot (y);
        probe ("stopped");
        TR ("%s: yielder asks to stop", y->op);
        return y->stop_value;
    }
    y->in = true;
    cur = nullptr;
    switch (y->mode) {
    case 0: hev_task_yield (type); break;
    case 1: hev_task_yield (type); if (choose (3) == 2) hev_task_yield (HEV_TASK_YIELD); break;
    case 2:   // a time limit, as applications do
        if (type == HEV_TASK_YIELD)
            hev_task_yield (type);
        else if (hev_task_sleep (1 + choose (40)) == 0)
            probe ("time-out");
        break;
    case 3:   // looks again without waiting, once
        if (!y->spun)
            y->spun = true;
        else
            hev_task_yield (type);
        break;
    }
    turn_no++;
    y->in = false;
    cur = y;
    probe ("continued");
    return 0;
}
static void begin (Y &y, const char *op, int fd, int fd2 = -1)
{
    static const int vals[] = { 1, -1, 42, INT32_MIN, 256 };
    y.op = op;
    y.fds.insert (fd);
    if (fd2 >= 0)
        y.fds.insert (fd2);
    y.task = hev_task_self ();
    if (choose (3) == 2) {
        y.stop_at = 1 + choose (3);
        y.stop_value = pick (vals);
    }
    y.mode = choose (4);
    all.push_back (&y);
    y.on = true;
    cur = &y;
}
static void finish (Y &y)
{
    y.on = false;
    cur = nullptr;
    all.erase (std::find (all.begin (), all.end (), &y));
    if (y.stopped)
        CHECK (shot (&y) == y.at_stop, "abandoned", "%s changed the buffer after its yielder asked to stop", y.op);
    if (y.calls)
        nontrivial ();
}
static void breath ()
{
    switch (choose (7)) {
    case 4: yield (); break;
    case 5: hev_task_sleep (choose (5)); turn_no++; break;
    case 6: hev_task_usleep (choose (300)); turn_no++; break;
    }
}
static size_t amount (uint64_t left)
{
    static const size_t sz[] = { 16, 1, 3, 64, 200, 1000 };
    size_t n = 1 + noise () % pick (sz);
    return left && n > left ? left : n;
}
static void add (int fd, int ev)
{
    R.immune++;
    CHECK (hev_task_add_fd (hev_task_self (), fd, ev) == 0, "registration", "registering a descriptor failed");
    R.immune--;
}
static void del (int fd) { hev_task_del_fd (hev_task_self (), fd); }

// ------------------------------------------------------------ plain streams
// the buffer is filled so that no byte equals the one the stream has there
static std::string counter (Dir *d, size_t n)
{
    std::string s = d->text (d->got, n);
    for (auto &c : s)
        c = ~c;
    return s;
}
static size_t filled (Dir *d, const std::string &b, size_t n, const char *op)
{
    size_t k = 0;
    while (k < n && (uint8_t)b[k] == d->at (d->got + k))
        k++;
    for (size_t i = k; i < n; i++)
        CHECK ((uint8_t)b[i] == (uint8_t)~d->at (d->got + i), "content", "%s: %s put wrong bytes into the buffer", d->name, op);
    return k;
}
static void reader (int fd, bool sock, Dir *d)
{
    add (fd, POLLIN);
    FileP f = file (fd);
    for (;;) {
        breath ();
        size_t n = amount (0);
        int op = choose (sock ? 5 : 2), flags = op >= 2 && choose (2) ? MSG_WAITALL : 0;
        std::string b = counter (d, n);
        bool ready = poll_mask (f.get ()) & (POLLIN | POLLHUP | POLLERR);
        uint64_t out0 = f->rx->out;
        Y y;
        ssize_t r;
        Vec *v = nullptr;
        if (op == 1 || op == 4) {
            v = new Vec (n);
            v->put (b.data ());
            y.vec = v;
        } else
            y.buf = &b;
        begin (y, read_name[op], fd);
        self ()->what = read_name[op];
        TR ("%s: %s of %zu at %lu%s", d->name, read_name[op], n, (unsigned long)d->got, flags ? " (all)" : "");
        errno = 0;
        struct msghdr m;
        memset (&m, 0, sizeof m);
        switch (op) {
        case 0: r = hev_task_io_read (fd, &b[0], n, yfn, &y); break;
        case 1: r = hev_task_io_readv (fd, v->v.data (), v->v.size (), yfn, &y); break;
        case 2: r = hev_task_io_socket_recv (fd, &b[0], n, flags, yfn, &y); break;
        case 3: r = hev_task_io_socket_recvfrom (fd, &b[0], n, flags, NULL, NULL, yfn, &y); break;
        default:
            m.msg_iov = v->v.data ();
            m.msg_iovlen = v->v.size ();
            r = hev_task_io_socket_recvmsg (fd, &m, flags, yfn, &y);
        }
        int en = errno;
        turn_no++;
        finish (y);
        self ()->what = "";
        TR ("%s: %s returns %ld", d->name, read_name[op], (long)r);
        if (v) {
            v->check (read_name[op]);
            v->get (&b[0]);
            delete v;
        }
        if (ready && !flags)
            CHECK (y.calls == 0, "needless", "%s: %s called its yielder although it could complete at once", d->name, read_name[op]);
        size_t k = filled (d, b, n, read_name[op]);
        if (y.stopped) {
            CHECK (r == -2, "abandoned", "%s: abandoned %s returns %ld", d->name, read_name[op], (long)r);
            CHECK (k == f->rx->out - out0, "abandoned", "%s: abandoned %s put %zu bytes into the buffer but took %lu", d->name, read_name[op], k, (unsigned long)(f->rx->out - out0));
            if (!flags)
                CHECK (k == 0, "abandoned", "%s: abandoned %s took %zu bytes", d->name, read_name[op], k);
            d->got += k;
            continue;
        }
        if (r > 0) {
            CHECK ((size_t)r == k, "count", "%s: %s reports %ld bytes, %zu are in the buffer", d->name, read_name[op], (long)r, k);
            d->got += k;
            if (flags && k < n)
                CHECK (d->broken || d->finished (), "waitall", "%s: %s asked to wait for all %zu bytes returned %ld before the end of the stream", d->name, read_name[op], n, (long)r);
        } else if (r == 0) {
            CHECK (k == 0 && (d->broken || d->finished ()), "end", "%s: %s reports the end of the stream at %lu of %lu bytes", d->name, read_name[op], (unsigned long)d->got, (unsigned long)d->sent);
            break;
        } else {
            CHECK (r == -1 && d->broken && en == ECONNRESET, "error", "%s: %s fails with %ld, %s", d->name, read_name[op], (long)r, ename (en));
            break;
        }
    }
    del (fd);
    sim_close (fd);
}
static void writer (int fd, bool sock, Dir *d)
{
    add (fd, POLLOUT);
    FileP f = file (fd);
    while (d->sent < d->total) {
        breath ();
        size_t n = amount (d->total - d->sent);
        int op = choose (sock ? 5 : 2), flags = op >= 2 && choose (2) ? MSG_WAITALL : 0;
        std::string b = d->text (d->sent, n), b0 = b;
        bool ready = (poll_mask (f.get ()) & (POLLOUT | POLLHUP | POLLERR)) && !M.shortw;
        // for pipes POLLOUT does not promise room for a small write
        if (f->type == T_PIPE_W && !f->tx->rshut)
            ready = false;
        uint64_t in0 = f->tx->in;
        Y y;
        ssize_t r;
        begin (y, write_name[op], fd);
        y.buf = &b;
        self ()->what = write_name[op];
        TR ("%s: %s of %zu at %lu%s", d->name, write_name[op], n, (unsigned long)d->sent, flags ? " (all)" : "");
        errno = 0;
        if (op == 1 || op == 4) {
            Vec v (n);
            v.put (b.data ());
            struct msghdr m;
            memset (&m, 0, sizeof m);
            m.msg_iov = v.v.data ();
            m.msg_iovlen = v.v.size ();
            if (op == 1)
                r = hev_task_io_writev (fd, v.v.data (), v.v.size (), yfn, &y);
            else
                r = hev_task_io_socket_sendmsg (fd, &m, flags, yfn, &y);
            int e = errno;
            v.check (write_name[op]);
            errno = e;
        } else if (op == 0)
            r = hev_task_io_write (fd, b.data (), n, yfn, &y);
        else if (op == 2)
            r = hev_task_io_socket_send (fd, b.data (), n, flags, yfn, &y);
        else
            r = hev_task_io_socket_sendto (fd, b.data (), n, flags, NULL, 0, yfn, &y);
        int en = errno;
        turn_no++;
        finish (y);
        self ()->what = "";
        TR ("%s: %s returns %ld", d->name, write_name[op], (long)r);
        CHECK (b == b0, "memory", "%s changed the data it was given", write_name[op]);
        if (ready && !flags)
            CHECK (y.calls == 0, "needless", "%s: %s called its yielder although it could complete at once", d->name, write_name[op]);
        size_t k = f->tx->in - in0;
        if (y.stopped) {
            CHECK (r == -2, "abandoned", "%s: abandoned %s returns %ld", d->name, write_name[op], (long)r);
            if (!flags)
                CHECK (k == 0, "abandoned", "%s: abandoned %s sent %zu bytes", d->name, write_name[op], k);
            CHECK (k < n, "abandoned", "%s: abandoned %s sent %zu of %zu bytes", d->name, write_name[op], k, n);
            d->sent += k;
            continue;
        }
        if (r > 0) {
            CHECK ((size_t)r == k, "count", "%s: %s reports %ld bytes, %zu were sent", d->name, write_name[op], (long)r, k);
            d->sent += k;
            if (flags && k < n)
                CHECK (d->broken, "waitall", "%s: %s asked to send all %zu bytes returned %ld without an error", d->name, write_name[op], n, (long)r);
        } else {
            CHECK (r == -1 && d->broken && (en == EPIPE || en == ECONNRESET), "error", "%s: %s fails with %ld, %s", d->name, write_name[op], (long)r, ename (en));
            break;
        }
    }
    d->ended = true;
    if (sock)
        sim_shutdown (fd, SHUT_WR);
    del (fd);
    sim_close (fd);
}
static void common (bool *faults)
{
    *faults = choose (4);
    machine_random (*faults);
    N.random_caps = choose (2);
    set_step_limit (20000000);
    at_cleanup ([] { all.clear (); cur = nullptr; on_sys = nullptr; });
    all.clear ();
    cur = nullptr;
    on_sys = watch;
}
SCENARIO ("P23", yielded_streams, 6)
{
    static const uint64_t tot[] = { 100, 0, 1, 20, 400, 1500 };
    bool faults;
    common (&faults);
    Leak lk;
    sys_init ();
    uint32_t n = 1 + choose (3);
    std::vector<Dir *> ds;
    for (uint32_t i = 0; i < n; i++) {
        Dir *a = dir_new ("A", pick (tot)), *b = dir_new ("B", pick (tot));
        int p[2];
        switch (choose (5)) {
        case 0: {
            int fd, fd2;
            StreamOpt o;
            random_stream_opt (o);
            Peer *q = peer_new (ext_stream (&fd, o), a, b);
            peer_random (q, faults);
            R.immune++;
            fd2 = sim_dup (fd);
            R.immune--;
            spawn ([=] { writer (fd2, true, b); }, rprio ());
            spawn ([=] { reader (fd, true, a); }, rprio ());
            peer_go (q);
            ds.push_back (b);
            break; }
        case 1: {
            int fd;
            Peer *q = peer_new (ext_pipe_in (&fd, 1 + noise () % 300), a, nullptr);
            peer_random (q, false);
            spawn ([=] { reader (fd, false, a); }, rprio ());
            peer_go (q);
            break; }
        case 2: {
            int fd;
            Peer *q = peer_new (ext_pipe_out (&fd, 1 + noise () % 300), nullptr, a);
            peer_random (q, faults);
            if (q->kill == 1)
                q->kill = 2;
            spawn ([=] { writer (fd, false, a); }, rprio ());
            peer_go (q);
            break; }
        case 3:
            R.immune++;
            sim_pipe2 (p, O_NONBLOCK);
            R.immune--;
            spawn ([=] { reader (p[0], false, a); }, rprio ());
            spawn ([=] { writer (p[1], false, a); }, rprio ());
            break;
        case 4:
            R.immune++;
            sim_socketpair (AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, p);
            R.immune--;
            spawn ([=] { reader (p[0], true, a); }, rprio ());
            spawn ([=] { writer (p[1], true, a); }, rprio ());
            break;
        }
        ds.push_back (a);
    }
    maybe_disturbers ();
    sys_run ();
    world_ends ();
    for (auto d : ds)
        if (!d->broken)
            CHECK (d->got == d->sent && (d->sent == d->total || d->got == 0), "complete", "%s: %lu of %lu bytes sent, %lu arrived", d->name, (unsigned long)d->sent, (unsigned long)d->total, (unsigned long)d->got);
    sys_fini ();
    lk.check ("after fini");
}

// ---------------------------------------------------------- stacked streams
static void stack_reader (Stack *s, FileP f, Dir *d)
{
    HevTaskCIO *c = s->top ();
    for (;;) {
        breath ();
        size_t n = amount (0);
        int op = choose (4);
        bool exact = op & 1;
        std::string b = counter (d, n);
        bool ready = (poll_mask (f.get ()) & (POLLIN | POLLHUP | POLLERR)) || f->rx->out > d->got;
        Y y;
        ssize_t r;
        Vec *v = nullptr;
        if (op >= 2) {
            v = new Vec (n);
            v->put (b.data ());
            y.vec = v;
        } else
            y.buf = &b;
        begin (y, cread_name[op], s->fdi);
        self ()->what = cread_name[op];
        TR ("%s: %s of %zu at %lu", d->name, cread_name[op], n, (unsigned long)d->got);
        switch (op) {
        case 0: r = hev_task_cio_read (c, &b[0], n, yfn, &y); break;
        case 1: r = hev_task_cio_read_exact (c, &b[0], n, yfn, &y); break;
        case 2: r = hev_task_cio_readv (c, v->v.data (), v->v.size (), yfn, &y); break;
        default: r = hev_task_cio_readv_exact (c, v->v.data (), v->v.size (), yfn, &y);
        }
        int en = r < 0 ? g_cio_err (c) : 0;
        turn_no++;
        finish (y);
        self ()->what = "";
        TR ("%s: %s returns %ld", d->name, cread_name[op], (long)r);
        if (v) {
            v->check (cread_name[op]);
            v->get (&b[0]);
            delete v;
        }
        if (ready && !exact)
            CHECK (y.calls == 0, "needless", "%s: %s called its yielder although it could complete at once", d->name, cread_name[op]);
        size_t k = filled (d, b, n, cread_name[op]);
        if (y.stopped) {
            CHECK (r == -2, "abandoned", "%s: abandoned %s returns %ld", d->name, cread_name[op], (long)r);
            if (!exact)
                CHECK (k == 0, "abandoned", "%s: abandoned %s took %zu bytes", d->name, cread_name[op], k);
            d->got += k;
            continue;
        }
        if (r > 0) {
            CHECK ((size_t)r == k, "count", "%s: %s reports %ld bytes, %zu are in the buffer", d->name, cread_name[op], (long)r, k);
            d->got += k;
            if (exact && k < n)
                CHECK (d->broken || d->finished (), "exact", "%s: %s of %zu bytes returned %ld before the end of the stream", d->name, cread_name[op], n, (long)r);
        } else if (r == 0) {
            CHECK (k == 0 && (d->broken || d->finished ()), "end", "%s: %s reports the end of the stream at %lu of %lu bytes", d->name, cread_name[op], (unsigned long)d->got, (unsigned long)d->sent);
            break;
        } else {
            CHECK (r == -1 && d->broken && en == ECONNRESET, "error", "%s: %s fails with %ld, %s", d->name, cread_name[op], (long)r, ename (en));
            break;
        }
    }
}
static bool flush (Stack *s, FileP f, Dir *d, bool insist, bool unknown = false)
{
    HevTaskCIO *c = s->top ();
    for (;;) {
        bool none = f->tx->in == d->sent;
        Y y;
        begin (y, "stream flush", s->fdo);
        if (insist)
            y.stop_at = -1;
        self ()->what = "stream flush";
        int r = hev_task_cio_flush (c, yfn, &y);
        int en = r < 0 ? g_cio_err (c) : 0;
        turn_no++;
        finish (y);
        self ()->what = "";
        TR ("%s: flush returns %d", d->name, r);
        if (none && !unknown && !d->broken)
            CHECK (y.calls == 0, "needless", "%s: flush called its yielder although there is nothing to flush", d->name);
        if (y.stopped) {
            CHECK (r == -2, "abandoned", "%s: abandoned flush returns %d", d->name, r);
            if (choose (2))
                continue;
            return true;
        }
        if (r == 0) {
            if (!d->broken && !unknown)
                CHECK (f->tx->in == d->sent, "flush", "%s: after a successful flush %lu of %lu bytes reached the bottom", d->name, (unsigned long)f->tx->in, (unsigned long)d->sent);
            return true;
        }
        CHECK (r == -1 && d->broken && (en == EPIPE || en == ECONNRESET), "error", "%s: flush fails with %d, %s", d->name, r, ename (en));
        return false;
    }
}
static void stack_writer (Stack *s, FileP f, Dir *d)
{
    HevTaskCIO *c = s->top ();
    bool ok = true;
    while (ok && d->sent < d->total) {
        breath ();
        if (choose (4) == 3 && !flush (s, f, d, false))
            break;
        size_t n = amount (d->total - d->sent);
        int op = choose (4);
        bool exact = op & 1;
        std::string b = d->text (d->sent, n), b0 = b;
        uint64_t in0 = f->tx->in;
        Y y;
        ssize_t r;
        begin (y, cwrite_name[op], s->fdo);
        y.buf = &b;
        self ()->what = cwrite_name[op];
        TR ("%s: %s of %zu at %lu", d->name, cwrite_name[op], n, (unsigned long)d->sent);
        if (op >= 2) {
            Vec v (n);
            v.put (b.data ());
            if (op == 2)
                r = hev_task_cio_writev (c, v.v.data (), v.v.size (), yfn, &y);
            else
                r = hev_task_cio_writev_exact (c, v.v.data (), v.v.size (), yfn, &y);
            v.check (cwrite_name[op]);
        } else if (op == 0)
            r = hev_task_cio_write (c, b.data (), n, yfn, &y);
        else
            r = hev_task_cio_write_exact (c, b.data (), n, yfn, &y);
        int en = r < 0 ? g_cio_err (c) : 0;
        turn_no++;
        finish (y);
        self ()->what = "";
        TR ("%s: %s returns %ld", d->name, cwrite_name[op], (long)r);
        CHECK (b == b0, "memory", "%s changed the data it was given", cwrite_name[op]);
        if (y.stopped) {
            CHECK (r == -2, "abandoned", "%s: abandoned %s returns %ld", d->name, cwrite_name[op], (long)r);
            probe ("write-stopped");
            if (!exact) {
                CHECK (f->tx->in <= d->sent || d->broken, "abandoned", "%s: abandoned %s sent bytes", d->name, cwrite_name[op]);
                continue;
            }
            // how much the layers took shows after a flush
            uint64_t s0 = d->sent;
            ok = flush (s, f, d, true, true);
            if (!ok || d->broken)
                break;
            d->sent = f->tx->in;
            CHECK (d->sent >= s0 && d->sent < s0 + n, "abandoned", "%s: abandoned %s of %zu bytes sent %ld", d->name, cwrite_name[op], n, (long)(d->sent - s0));
            continue;
        }
        (void)in0;
        if (r > 0) {
            CHECK ((size_t)r <= n, "count", "%s: %s of %zu reports %ld bytes", d->name, cwrite_name[op], n, (long)r);
            d->sent += r;
            if (exact && (size_t)r < n)
                CHECK (d->broken, "exact", "%s: %s of %zu bytes returned %ld without an error", d->name, cwrite_name[op], n, (long)r);
        } else {
            CHECK (r == -1 && d->broken && (en == EPIPE || en == ECONNRESET), "error", "%s: %s fails with %ld, %s", d->name, cwrite_name[op], (long)r, ename (en));
            ok = false;
        }
    }
    if (ok)
        flush (s, f, d, true);
    d->ended = true;
}
SCENARIO ("P23", yielded_stacks, 5)
{
    static const uint64_t tot[] = { 100, 0, 1, 20, 400, 1500 };
    bool faults;
    common (&faults);
    Leak lk;
    sys_init ();
    uint32_t n = 1 + choose (2);
    std::vector<Dir *> ds;
    for (uint32_t i = 0; i < n; i++) {
        Dir *a = dir_new ("in", pick (tot)), *b = dir_new ("out", pick (tot));
        int fd, fd2 = -1;
        StreamOpt o;
        random_stream_opt (o);
        Peer *p = peer_new (ext_stream (&fd, o), a, b);
        peer_random (p, faults);
        FileP f = file (fd);
        Stack *s = new Stack ();
        int *users = new int (1);
        at_cleanup ([=] { delete s; delete users; });
        ds.push_back (a);
        ds.push_back (b);
        if (choose (2)) {
            stack_open (*s, fd, fd, choose (2), 3);
            bool wfirst = choose (2);
            if (wfirst || p->wait_ready) {
                spawn ([=] {
                    add (fd, POLLIN | POLLOUT);
                    stack_writer (s, f, b);
                    sim_shutdown (fd, SHUT_WR);
                    stack_reader (s, f, a);
                    del (fd);
                    stack_close (*s);
                }, rprio ());
            } else {
                spawn ([=] {
                    add (fd, POLLIN | POLLOUT);
                    stack_reader (s, f, a);
                    stack_writer (s, f, b);
                    del (fd);
                    stack_close (*s);
                }, rprio ());
            }
        } else {
            R.immune++;
            fd2 = sim_dup (fd);
            R.immune--;
            stack_open (*s, fd, fd2, false, 3);
            *users = 2;
            spawn ([=] {
                add (fd2, POLLOUT);
                stack_writer (s, f, b);
                sim_shutdown (fd2, SHUT_WR);
                del (fd2);
                if (--*users == 0)
                    stack_close (*s);
            }, rprio ());
            spawn ([=] {
                add (fd, POLLIN);
                stack_reader (s, f, a);
                del (fd);
                if (--*users == 0)
                    stack_close (*s);
            }, rprio ());
        }
        peer_go (p);
    }
    maybe_disturbers ();
    sys_run ();
    world_ends ();
    for (auto d : ds)
        if (!d->broken)
            CHECK (d->got == d->sent && d->sent == d->total, "complete", "%s: %lu of %lu bytes sent, %lu arrived", d->name, (unsigned long)d->sent, (unsigned long)d->total, (unsigned long)d->got);
    sys_fini ();
    lk.check ("after fini");
}

// ------------------------------------------------------------------- relays
SCENARIO ("P23", yielded_relays, 4)
{
    static const uint64_t tot[] = { 60, 0, 1, 300, 1500 };
    static const size_t bufs[] = { 4096, 1, 2, 7, 64, 600 };
    bool faults;
    common (&faults);
    Leak lk;
    sys_init ();
    uint64_t tf = pick (tot), tg = pick (tot);
    Dir *f = dir_new ("forward", tf), *g = dir_new ("backward", tg), *fo = dir_new ("forward out", tf), *go = dir_new ("backward out", tg);
    fo->salt = f->salt;
    go->salt = g->salt;
    int a, b;
    StreamOpt o;
    random_stream_opt (o);
    Peer *pa = peer_new (ext_stream (&a, o), f, go);
    random_stream_opt (o);
    Peer *pb = peer_new (ext_stream (&b, o), g, fo);
    peer_random (pa, faults);
    peer_random (pb, faults);
    bool streams = choose (2), apart = !streams && choose (2);
    size_t buf = pick (bufs);
    FileP fa = file (a), fb = file (b);
    spawn ([=] {
        add (a, POLLIN | POLLOUT);
        add (b, POLLIN | POLLOUT);
        Stack sa, sb;
        int a2 = a, b2 = b;
        if (apart) {
            // other descriptors for writing: each direction ends for itself
            a2 = hev_task_io_dup (a);
            b2 = hev_task_io_dup (b);
            add (a2, POLLOUT);
            add (b2, POLLOUT);
        }
        if (streams) {
            stack_open (sa, a, a, choose (2), 2);
            stack_open (sb, b, b, choose (2), 2);
        }
        Y y;
        size_t fd0 = open_fds ();
        Ledger l0 = ledger ();
        begin (y, streams ? "stream relay" : "relay", a, b);
        y.relay = true;
        y.fds.insert (a2);
        y.fds.insert (b2);
        for (auto s : { &sa, &sb })
            for (auto &x : s->l)
                y.idle_max += x.r + x.w + 2;
        if (y.stop_at > 0 && choose (2))
            y.stop_at += choose (60);
        self ()->what = y.op;
        if (streams)
            hev_task_cio_splice (sa.top (), sb.top (), buf, yfn, &y);
        else
            hev_task_io_splice (a, a2, b, b2, buf, yfn, &y);
        turn_no++;
        finish (y);
        self ()->what = "";
        TR ("relay ends after %d calls", y.calls);
        CHECK (open_fds () == fd0, "held", "the relay leaves %ld descriptors behind", (long)(open_fds () - fd0));
        Ledger l1 = ledger ();
        if (!variant_has ("slice"))
            CHECK (l1.blocks == l0.blocks, "held", "the relay leaves %ld memory blocks behind", (long)(l1.blocks - l0.blocks));
        uint64_t fin = fa->rx->out, gin = fb->rx->out, fout = fb->tx->in, gout = fa->tx->in;
        CHECK (fout <= fin && gout <= gin, "content", "the relay passed on more than it took");
        if (!y.stopped && !f->broken && !g->broken && !fo->broken && !go->broken) {
            bool fdone = f->ended && fa->rx->fin && fout == f->sent, gdone = g->ended && fb->rx->fin && gout == g->sent;
            CHECK (fdone || gdone, "complete", "the relay ended on its own before any side was finished");
            CHECK (!apart || (fdone && gdone), "complete", "the relay ended on its own before both sides were finished");
            probe ("relay-complete");
        }
        fo->sent = fout;
        go->sent = gout;
        if (apart) {
            del (a2);
            del (b2);
            sim_close (a2);
            sim_close (b2);
        }
        del (a);
        del (b);
        if (streams) {
            stack_close (sa);
            stack_close (sb);
        } else {
            sim_close (a);
            sim_close (b);
        }
    }, rprio ());
    peer_go (pa);
    peer_go (pb);
    if (choose (2))
        spawn ([] { for (int i = 0; i < 30; i++) yield (); }, rprio ());
    maybe_disturbers ();
    sys_run ();
    world_ends ();
    if (!fo->broken && !f->broken)
        CHECK (fo->got == fo->sent, "complete", "forward: %lu bytes passed on, %lu arrived", (unsigned long)fo->sent, (unsigned long)fo->got);
    if (!go->broken && !g->broken)
        CHECK (go->got == go->sent, "complete", "backward: %lu bytes passed on, %lu arrived", (unsigned long)go->sent, (unsigned long)go->got);
    fa.reset ();
    fb.reset ();
    sys_fini ();
    lk.check ("after fini");
}

// ------------------------------------------------- connections and messages
static std::set<uint64_t> taken;
static uint32_t to_accept;
static void conn_client (std::string to)
{
    R.immune++;
    int fd = hev_task_io_socket_socket (AF_INET, SOCK_STREAM, 0);
    R.immune--;
    CHECK (fd >= 0, "socket", "creating a socket failed");
    FileP f = file (fd);
    add (fd, POLLIN | POLLOUT);
    int r, en, tries = 0;
    for (;;) {
        Y y;
        breath ();
        begin (y, "connect", fd);
        if (++tries > 6)
            y.stop_at = -1;
        self ()->what = "connect";
        errno = 0;
        r = hev_task_io_socket_connect (fd, (const struct sockaddr *)to.data (), to.size (), yfn, &y);
        en = errno;
        turn_no++;
        finish (y);
        self ()->what = "";
        TR ("connect returns %d (%s)", r, r == -1 ? ename (en) : "");
        if (!y.stopped)
            break;
        CHECK (r == -2, "abandoned", "abandoned connect returns %d", r);
        CHECK (file (fd) == f, "abandoned", "abandoned connect closed the descriptor");
        probe ("connect-stopped");
    }
    int outcome = 0, cause = 0;
    size_t mine = 0;
    for (auto &c : N.conns)
        if (c.caddr == f->local) {
            outcome = c.outcome, cause = c.err;
            mine++;
        }
    CHECK (mine == 1, "once", "one connect made %zu attempts", mine);
    CHECK (outcome, "early", "connect returns %d before the outcome is known", r);
    if ((outcome == 1 || outcome == 5) && f->was_reset && r == -1)
        CHECK (en == ECONNRESET, "error", "connection was reset but connect reports %s", ename (en));
    else if (outcome == 1 || outcome == 5)
        CHECK (r == 0, "connect", "connect returns %d (%s) although the connection was established", r, ename (en));
    else
        CHECK (r == -1 && en == cause, "connect", "connect returns %d (%s) although the attempt failed", r, ename (en));
    del (fd);
    sim_close (fd);
}
static void conn_server (int lfd)
{
    add (lfd, POLLIN);
    FileP lf = file (lfd);
    while (taken.size () < to_accept) {
        breath ();
        bool ready = lf->aq.size ();
        Y y;
        struct sockaddr_storage sa;
        std::string sb (sizeof sa, (char)0x5a);
        socklen_t sl = sizeof sa;
        begin (y, "accept", lfd);
        y.buf = &sb;
        self ()->what = "accept";
        errno = 0;
        int r = hev_task_io_socket_accept (lfd, (struct sockaddr *)&sb[0], &sl, yfn, &y);
        int en = errno;
        turn_no++;
        finish (y);
        self ()->what = "";
        TR ("accept returns %d", r);
        if (ready)
            CHECK (y.calls == 0, "needless", "accept called its yielder although a connection was waiting");
        if (y.stopped) {
            CHECK (r == -2, "abandoned", "abandoned accept returns %d", r);
            CHECK (sb == std::string (sizeof sa, (char)0x5a) && sl == sizeof sa, "abandoned", "abandoned accept wrote an address");
            continue;
        }
        CHECK (r >= 0, "accept", "accept returns %d (%s)", r, ename (en));
        CHECK (taken.insert (file (r)->conn).second, "once", "a connection was accepted twice");
        sim_close (r);
    }
    del (lfd);
    sim_close (lfd);
}
SCENARIO ("P23", yielded_connections, 3)
{
    bool faults;
    common (&faults);
    M.sys_fail_at = -1;
    M.sys_fail_rate = 0;
    static const uint32_t rates[] = { 0, 30, 100 };
    Leak lk;
    taken.clear ();
    sys_init ();
    std::string addr = make_addr (0x7f000001, 80);
    R.immune++;
    int lfd = hev_task_io_socket_socket (AF_INET, SOCK_STREAM, 0);
    R.immune--;
    sim_bind (lfd, (struct sockaddr *)addr.data (), addr.size ());
    sim_listen (lfd, 16);
    static std::vector<FileP> outside;
    outside.clear ();
    uint32_t no = choose (5);
    to_accept = no;
    for (uint32_t i = 0; i < no; i++)
        at (now () + noise () % 200000000, [addr] { uint64_t id; outside.push_back (ext_connect (addr, &id)); });
    spawn ([=] { conn_server (lfd); }, rprio ());
    // clients go elsewhere, to a listener nobody serves
    std::string other = make_addr (0x7f000001, 81);
    R.immune++;
    int ofd = hev_task_io_socket_socket (AF_INET, SOCK_STREAM, 0);
    R.immune--;
    sim_bind (ofd, (struct sockaddr *)other.data (), other.size ());
    sim_listen (ofd, 16);
    if (faults) {
        N.refuse = pick (rates);
        N.tmo = pick (rates);
    }
    if (no)
        N.refuse = N.tmo = 0;
    uint32_t nc = 1 + choose (4);
    for (uint32_t i = 0; i < nc; i++) {
        std::string to = choose (4) == 3 ? make_addr (0x7f000001, 9) : other;
        spawn ([=] { conn_client (to); }, rprio ());
    }
    maybe_disturbers ();
    sys_run ();
    sim_close (ofd);
    for (auto &e : outside)
        if (e->tx)
            ext_close (e);
    outside.clear ();
    world_ends ();
    sys_fini ();
    lk.check ("after fini");
}
// datagrams between two sockets: an abandoned call neither takes nor sends one
static void dgram_writer (int fd, uint32_t n, int kind)
{
    add (fd, POLLOUT);
    FileP f = file (fd);
    bool layered = kind >= 4;
    Stack s;
    if (layered)
        stack_open (s, fd, fd, true, 2);
    for (uint32_t i = 0; i < n;) {
        breath ();
        std::string m (8, 0), m0;
        memcpy (&m[0], &i, 4);
        m0 = m;
        uint64_t k = i * 0x9e3779b9u;
        memcpy (&m[4], &k, 4);
        m0 = m;
        struct iovec v[2] = { { &m[0], 3 }, { &m[3], 5 } };
        struct msghdr h;
        memset (&h, 0, sizeof h);
        h.msg_iov = v;
        h.msg_iovlen = 2;
        int op = choose (layered ? 2 : 5);
        uint64_t s0 = f->sends;
        Y y;
        ssize_t r;
        begin (y, layered ? "stream datagram write" : write_name[op], fd);
        y.buf = &m;
        self ()->what = y.op;
        errno = 0;
        if (layered)
            r = op ? hev_task_cio_writev_dgram (s.top (), v, 2, NULL, yfn, &y) : hev_task_cio_write_dgram (s.top (), m.data (), 8, NULL, yfn, &y);
        else
            switch (op) {
            case 0: r = hev_task_io_write (fd, m.data (), 8, yfn, &y); break;
            case 1: r = hev_task_io_writev (fd, v, 2, yfn, &y); break;
            case 2: r = hev_task_io_socket_send (fd, m.data (), 8, 0, yfn, &y); break;
            case 3: r = hev_task_io_socket_sendto (fd, m.data (), 8, 0, NULL, 0, yfn, &y); break;
            default: r = hev_task_io_socket_sendmsg (fd, &h, 0, yfn, &y);
            }
        turn_no++;
        finish (y);
        self ()->what = "";
        TR ("datagram %u: %s returns %ld", i, y.op, (long)r);
        if (y.stopped) {
            CHECK (r == -2, "abandoned", "abandoned %s returns %ld", y.op, (long)r);
            CHECK (f->sends == s0, "abandoned", "abandoned %s sent a datagram", y.op);
            probe ("datagram-write-stopped");
            continue;
        }
        CHECK (r == 8, "result", "%s of a datagram of 8 bytes returns %ld", y.op, (long)r);
        CHECK (f->sends == s0 + 1, "once", "%s sent %lu datagrams", y.op, (unsigned long)(f->sends - s0));
        i++;
    }
    del (fd);
    if (layered)
        stack_close (s);
    else
        sim_close (fd);
}
static void dgram_reader (int fd, uint32_t n, int kind)
{
    add (fd, POLLIN);
    FileP f = file (fd);
    bool layered = kind >= 4;
    Stack s;
    if (layered)
        stack_open (s, fd, fd, true, 2);
    for (uint32_t i = 0; i < n;) {
        breath ();
        std::string m (12, (char)0x33), m0 = m;
        struct iovec v[2] = { { &m[0], 3 }, { &m[3], 9 } };
        struct msghdr h;
        memset (&h, 0, sizeof h);
        h.msg_iov = v;
        h.msg_iovlen = 2;
        int op = choose (layered ? 2 : 5);
        uint64_t p0 = f->pops;
        bool ready = f->mq.size ();
        Y y;
        ssize_t r;
        begin (y, layered ? "stream datagram read" : read_name[op], fd);
        y.buf = &m;
        self ()->what = y.op;
        errno = 0;
        struct sockaddr_storage from;
        if (layered)
            r = op ? hev_task_cio_readv_dgram (s.top (), v, 2, &from, yfn, &y) : hev_task_cio_read_dgram (s.top (), &m[0], 12, &from, yfn, &y);
        else
            switch (op) {
            case 0: r = hev_task_io_read (fd, &m[0], 12, yfn, &y); break;
            case 1: r = hev_task_io_readv (fd, v, 2, yfn, &y); break;
            case 2: r = hev_task_io_socket_recv (fd, &m[0], 12, 0, yfn, &y); break;
            case 3: r = hev_task_io_socket_recvfrom (fd, &m[0], 12, 0, NULL, NULL, yfn, &y); break;
            default: r = hev_task_io_socket_recvmsg (fd, &h, 0, yfn, &y);
            }
        turn_no++;
        finish (y);
        self ()->what = "";
        TR ("datagram %u: %s returns %ld", i, y.op, (long)r);
        if (ready)
            CHECK (y.calls == 0, "needless", "%s called its yielder although a datagram was waiting", y.op);
        if (y.stopped) {
            CHECK (r == -2, "abandoned", "abandoned %s returns %ld", y.op, (long)r);
            CHECK (f->pops == p0 && m == m0, "abandoned", "abandoned %s took a datagram", y.op);
            probe ("datagram-read-stopped");
            continue;
        }
        CHECK (r == 8 && f->pops == p0 + 1, "result", "%s of a datagram of 8 bytes returns %ld", y.op, (long)r);
        uint32_t k, x = i * 0x9e3779b9u, q;
        memcpy (&k, &m[0], 4);
        memcpy (&q, &m[4], 4);
        CHECK (k == i && q == x, "content", "datagram %u arrives instead of %u", k, i);
        i++;
    }
    del (fd);
    if (layered)
        stack_close (s);
    else
        sim_close (fd);
}
SCENARIO ("P23", yielded_datagrams, 3)
{
    bool faults;
    common (&faults);
    Leak lk;
    sys_init ();
    uint32_t np = 1 + choose (2);
    for (uint32_t i = 0; i < np; i++) {
        int p[2];
        R.immune++;
        sim_socketpair (AF_UNIX, SOCK_DGRAM | SOCK_NONBLOCK, 0, p);
        R.immune--;
        file (p[0])->mcap = file (p[1])->mcap = 1 + choose (4);
        uint32_t n = 1 + choose (30);
        int kw = choose (6), kr = choose (6);
        spawn ([=] { dgram_writer (p[1], n, kw); }, rprio ());
        spawn ([=] { dgram_reader (p[0], n, kr); }, rprio ());
    }
    maybe_disturbers ();
    sys_run ();
    sys_fini ();
    lk.check ("after fini");
}
}
