// P10 stream I/O.
#include "w_stream.h"
using namespace w;
namespace p10 {
struct End { int fd = -1; bool sock = false; bool shared = false; };

static void arm (FileP f, End &e, int *err)
{
    static const int errs[] = { EIO, ENOMEM, EINTR, ENOBUFS, ETIMEDOUT };
    *err = 0;
    if (e.shared || !f || choose (12) != 11)
        return;
    *err = pick (errs);
    f->fail_err = *err;
    f->fail_after = choose (4);
}
static bool fired (FileP f, int err)
{
    bool r = err && f->fail_after < 0;
    if (f && !r)
        f->fail_after = -1;
    return r;
}
static void closed_fd ()
{
    char c = 0;
    errno = 0;
    ssize_t r = choose (2) ? read_op (choose (5), -1, &c, 1, 0, NULL, NULL) : write_op (choose (5), -1, &c, 1, 0, NULL, NULL);
    CHECK (r == -1 && errno == EBADF, "error", "an operation on an invalid descriptor returns %ld (%s)", (long)r, ename (errno));
}
static void breath ()
{
    switch (choose (6)) {
    case 0: case 1: case 2: break;
    case 3: yield (); break;
    case 4: hev_task_usleep (1 + noise () % 4000); turn_no++; break;
    case 5: hev_task_sleep (range (1, 30)); turn_no++; break;
    }
}
static size_t amount (uint64_t left)
{
    static const size_t sz[] = { 16, 1, 3, 64, 200, 1000 };
    size_t n = 1 + noise () % pick (sz);
    return left && n > left ? left : n;
}
static void writer (End e, Dir *d)
{
    HevTask *t = hev_task_self ();
    CHECK (hev_task_add_fd (t, e.fd, choose (2) ? POLLOUT : POLLIN | POLLOUT) == 0, "registration", "registering a descriptor failed");
    FileP f = file (e.fd);
    bool ok = true;
    while (ok && d->sent < d->total) {
        breath ();
        if (choose (24) == 23)
            closed_fd ();
        size_t n = amount (d->total - d->sent);
        if (choose (32) == 31)
            n = 0;
        int op = choose (e.sock ? 5 : 2), flags = op >= 2 && choose (2) ? MSG_WAITALL : 0, quiet = op >= 2 && choose (2) ? MSG_NOSIGNAL : 0, err;
        std::string b = d->text (d->sent, n);
        arm (f, e, &err);
        uint64_t t0 = turn_no, io = R.faults[F_IO_ERROR];
        (void)io;
        errno = 0;
        TR ("%s: %s of %zu at %lu%s", d->name, write_name[op], n, (unsigned long)d->sent, flags ? " (all)" : "");
        uint64_t sp = f->sigpipe;
        ssize_t r = write_op (op, e.fd, b.data (), n, flags | quiet, NULL, NULL);
        int en = errno;
        CHECK (!quiet || f->sigpipe == sp, "signal", "%s: %s asked not to raise a signal raises SIGPIPE", d->name, write_name[op]);
        bool fi = fired (f, err);
        TR ("%s: %s returns %ld", d->name, write_name[op], (long)r);
        if (turn_no > t0 + 1) { nontrivial (); probe ("write-blocked"); }
        if (r > 0) {
            CHECK ((size_t)r <= n, "count", "%s: %s of %zu bytes reports %ld", d->name, write_name[op], n, (long)r);
            if (flags && (size_t)r < n) {
                probe ("all-write-short");
                CHECK (d->broken || fi, "waitall", "%s: %s asked to send all %zu bytes returned %ld without an error", d->name, write_name[op], n, (long)r);
            }
            if (fi)
                CHECK (flags, "error", "%s: the error of %s was not reported", d->name, write_name[op]);
            d->sent += r;
        } else if (r == 0) {
            CHECK (n == 0, "count", "%s: %s of %zu bytes returns 0", d->name, write_name[op], n);
        } else {
            CHECK (r == -1, "result", "%s: %s returns %ld", d->name, write_name[op], (long)r);
            if (fi) {
                CHECK (en == err, "error", "%s: %s failed with %s but reports %s", d->name, write_name[op], ename (err), ename (en));
                probe ("write-error");
            } else {
                CHECK (d->broken, "error", "%s: %s fails with %s although the stream is intact", d->name, write_name[op], ename (en));
                CHECK (en == EPIPE || en == ECONNRESET, "error", "%s: %s on a broken stream reports %s", d->name, write_name[op], ename (en));
                probe ("write-broken");
                ok = false;
            }
        }
    }
    if (ok)
        breath ();
    d->ended = true;
    TR ("%s: writer ends after %lu bytes", d->name, (unsigned long)d->sent);
    if (e.shared)
        sim_shutdown (e.fd, SHUT_WR);
    CHECK (hev_task_del_fd (t, e.fd) == 0, "registration", "removing a registration failed");
    sim_close (e.fd);
}
static void reader (End e, Dir *d, bool early)
{
    HevTask *t = hev_task_self ();
    CHECK (hev_task_add_fd (t, e.fd, choose (2) ? POLLIN : POLLIN | POLLOUT) == 0, "registration", "registering a descriptor failed");
    FileP f = file (e.fd);
    uint64_t stop = early ? choose (d->total + 1) : ~0ull;
    while (d->got < stop) {
        breath ();
        size_t n = amount (0);
        if (!e.sock && choose (32) == 31)
            n = 0;
        int op = choose (e.sock ? 5 : 2), flags = op >= 2 ? (choose (2) ? MSG_WAITALL : choose (8) == 7 ? MSG_PEEK : 0) : 0, err;
        std::string b (n + 1, 0);
        arm (f, e, &err);
        uint64_t t0 = turn_no;
        errno = 0;
        TR ("%s: %s of %zu at %lu%s", d->name, read_name[op], n, (unsigned long)d->got, flags ? flags == MSG_PEEK ? " (peek)" : " (all)" : "");
        ssize_t r = read_op (op, e.fd, &b[0], n, flags, NULL, NULL);
        int en = errno;
        bool fi = fired (f, err);
        TR ("%s: %s returns %ld", d->name, read_name[op], (long)r);
        if (turn_no > t0 + 1) { nontrivial (); probe ("read-blocked"); }
        if (r > 0) {
            CHECK ((size_t)r <= n, "count", "%s: %s of %zu bytes reports %ld", d->name, read_name[op], n, (long)r);
            if (fi)
                CHECK (flags & MSG_WAITALL, "error", "%s: the error of %s was not reported", d->name, read_name[op]);
            if (flags & MSG_PEEK) {
                d->verify (b.data (), r, d->got, read_name[op]);
                probe ("peeked");
                continue;
            }
            d->take (b.data (), r, read_name[op]);
            if (flags && (size_t)r < n) {
                probe ("all-read-short");
                CHECK (d->broken || fi || d->finished (), "waitall", "%s: %s asked to wait for all %zu bytes returned %ld before the end of the stream", d->name, read_name[op], n, (long)r);
            }
        } else if (r == 0) {
            if (n == 0)
                continue;
            CHECK (d->broken || d->finished (), "end", "%s: %s reports the end of the stream at %lu of %lu bytes%s", d->name, read_name[op], (unsigned long)d->got, (unsigned long)d->sent, d->ended ? "" : " while the writer has not ended");
            probe ("read-end");
            break;
        } else {
            CHECK (r == -1, "result", "%s: %s returns %ld", d->name, read_name[op], (long)r);
            if (fi) {
                CHECK (en == err, "error", "%s: %s failed with %s but reports %s", d->name, read_name[op], ename (err), ename (en));
                probe ("read-error");
            } else {
                CHECK (d->broken, "error", "%s: %s fails with %s although the stream is intact", d->name, read_name[op], ename (en));
                CHECK (en == ECONNRESET, "error", "%s: %s on a broken stream reports %s", d->name, read_name[op], ename (en));
                probe ("read-broken");
                break;
            }
        }
    }
    if (stop != ~0ull)
        d->broken = true;
    CHECK (hev_task_del_fd (t, e.fd) == 0, "registration", "removing a registration failed");
    sim_close (e.fd);
}
static void filer (Dir *d)
{
    char path[32];
    snprintf (path, sizeof path, "/sim/file%lu", (unsigned long)d->salt);
    if (choose (2))
        fs[path] = std::make_shared<std::string> ("old content of the file");
    int fd = choose (2) ? hev_task_io_creat (path, 0600) : hev_task_io_open (path, O_CREAT | O_TRUNC | O_WRONLY, 0600);
    CHECK (fd >= 0, "open", "creating a file failed");
    End e; e.fd = fd;
    FileP f = file (fd);
    while (d->sent < d->total) {
        size_t n = amount (d->total - d->sent);
        std::string b = d->text (d->sent, n);
        int err;
        arm (f, e, &err);
        errno = 0;
        ssize_t r = write_op (choose (2), fd, b.data (), n, 0, NULL, NULL);
        int en = errno;
        bool fi = fired (f, err);
        if (fi)
            CHECK (r == -1 && en == err, "error", "%s: a failing file write returns %ld (%s)", d->name, (long)r, ename (en));
        else {
            CHECK (r > 0 && (size_t)r <= n, "count", "%s: a file write of %zu returns %ld", d->name, n, (long)r);
            d->sent += r;
        }
        breath ();
    }
    sim_close (fd);
    CHECK (*fs[path] == d->text (0, d->total), "content", "%s: the file does not hold what was written", d->name);
    fd = choose (2) ? hev_task_io_open (path, O_RDONLY) : hev_task_io_openat (AT_FDCWD, path, O_RDONLY);
    CHECK (fd >= 0, "open", "opening a file failed");
    e.fd = fd;
    f = file (fd);
    for (;;) {
        size_t n = amount (0);
        std::string b (n, 0);
        int err;
        arm (f, e, &err);
        errno = 0;
        ssize_t r = read_op (choose (2), fd, &b[0], n, 0, NULL, NULL);
        int en = errno;
        if (fired (f, err)) {
            CHECK (r == -1 && en == err, "error", "%s: a failing file read returns %ld (%s)", d->name, (long)r, ename (en));
            continue;
        }
        CHECK (r >= 0 && (size_t)r <= n, "count", "%s: a file read of %zu returns %ld", d->name, n, (long)r);
        if (r == 0)
            break;
        d->take (b.data (), r, "read");
        breath ();
    }
    CHECK (d->got == d->sent, "end", "%s: the file ends at %lu of %lu bytes", d->name, (unsigned long)d->got, (unsigned long)d->sent);
    sim_close (fd);
}
SCENARIO ("P10", stream_io, 10)
{
    static const uint64_t tot[] = { 100, 0, 1, 20, 400, 1500 };
    bool faults = choose (4);
    machine_random (faults);
    N.random_caps = choose (2);
    set_step_limit (400000);
    Leak lk;
    sys_init ();
    uint32_t n = 1 + choose (4);
    std::vector<Dir *> ds;
    for (uint32_t i = 0; i < n; i++) {
        Dir *a = dir_new ("A", pick (tot)), *b = dir_new ("B", pick (tot));
        bool early = faults && choose (6) == 5;
        switch (choose (6)) {
        case 0: {  // socket with a far end
            int fd;
            StreamOpt o;
            random_stream_opt (o);
            FileP ext = ext_stream (&fd, o);
            Peer *p = peer_new (ext, a, b);
            peer_random (p, faults);
            if (choose (2)) {
                // one descriptor, first one direction then the other
                End e; e.fd = hev_task_io_dup (fd); e.sock = true; e.shared = true;
                End e2; e2.fd = fd; e2.sock = true; e2.shared = true;
                spawn ([=] { writer (e, b); reader (e2, a, early); }, rprio ());
            } else {
                End e; e.fd = hev_task_io_dup (fd); e.sock = true; e.shared = true;
                End e2; e2.fd = fd; e2.sock = true; e2.shared = true;
                spawn ([=] { writer (e, b); }, rprio ());
                spawn ([=] { reader (e2, a, early); }, rprio ());
            }
            CHECK (fd >= 0, "dup", "duplicating a descriptor failed");
            peer_go (p);
            ds.push_back (a);
            ds.push_back (b);
            break; }
        case 1: {
            End e;
            FileP ext = ext_pipe_in (&e.fd, 1 + noise () % 300);
            Peer *p = peer_new (ext, a, nullptr);
            peer_random (p, false);
            spawn ([=] { reader (e, a, early); }, rprio ());
            peer_go (p);
            ds.push_back (a);
            break; }
        case 2: {
            End e;
            FileP ext = ext_pipe_out (&e.fd, 1 + noise () % 300);
            Peer *p = peer_new (ext, nullptr, a);
            peer_random (p, faults);
            if (p->kill == 1)
                p->kill = 2;
            spawn ([=] { writer (e, a); }, rprio ());
            peer_go (p);
            ds.push_back (a);
            break; }
        case 3: {
            int p[2];
            CHECK (hev_task_io_pipe_pipe (p) == 0, "pipe", "creating a pipe failed");
            End r, w; r.fd = p[0]; w.fd = p[1];
            spawn ([=] { reader (r, a, early); }, rprio ());
            spawn ([=] { writer (w, a); }, rprio ());
            ds.push_back (a);
            break; }
        case 4: {
            int p[2];
            CHECK (hev_task_io_socket_socketpair (AF_UNIX, SOCK_STREAM, 0, p) == 0, "socketpair", "creating a socket pair failed");
            End r, w; r.fd = p[0]; w.fd = p[1];
            r.sock = w.sock = true;
            spawn ([=] { reader (r, a, early); }, rprio ());
            spawn ([=] { writer (w, a); }, rprio ());
            ds.push_back (a);
            break; }
        case 5:
            spawn ([=] { filer (a); }, rprio ());
            ds.push_back (a);
            break;
        }
    }
    maybe_disturbers ();
    sys_run ();
    world_ends ();
    for (auto d : ds)
        if (!d->broken)
            CHECK (d->got == d->sent && d->sent == d->total, "complete", "%s: %lu of %lu bytes sent, %lu arrived", d->name, (unsigned long)d->sent, (unsigned long)d->total, (unsigned long)d->got);
    sys_fini ();
    lk.check ("after fini");
}
}
