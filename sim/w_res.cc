// P19 refused resources.
#include "w_cio.h"
#include <hev-task-channel.h>
#include <hev-task-channel-select.h>
#include <hev-task-call.h>
#include <hev-circular-buffer.h>
#include <sys/socket.h>
using namespace w;
namespace p19 {
static uint64_t refusals ()
{
    return R.faults[F_ALLOC_FAIL] + R.faults[F_MMAP_FAIL] + R.faults[F_FD_FAIL] + R.faults[F_SETUP_FAIL] + R.faults[F_THREAD_FAIL];
}
static void grant ()
{
    M.alloc_fail_at = M.sys_fail_at = -1;
    M.alloc_fail_rate = M.sys_fail_rate = 0;
}
static uint32_t port;
static uint32_t gone;         // other tasks that ended so far
static bool pressure;         // refusals at any time, not only at chosen points
struct Before {
    Ledger l = ledger ();
    uint64_t f = refusals ();
    uint32_t g = gone;
    const char *op;
    bool exact;
    Before (const char *o, bool x = true) : op (o), exact (x) { TR ("try: %s", o); }
    bool fired () { return refusals () > f; }
    // the call failed: only because of a refusal, and everything was given back
    void failed (const char *how)
    {
        TR ("  %s: fails (%s)", op, how);
        CHECK (fired (), "failure", "%s fails (%s) although nothing was refused", op, how);
        if (exact && !pressure && g == gone) {
            Ledger n = ledger ();
            CHECK (n.fds == l.fds, "given-back", "a failing %s keeps %ld descriptors:%s", op, (long)(n.fds - l.fds), ledger_detail ().c_str ());
            CHECK (n.maps == l.maps, "given-back", "a failing %s keeps %ld pages", op, (long)(n.maps - l.maps));
            if (!variant_has ("slice"))
                CHECK (n.blocks == l.blocks, "given-back", "a failing %s keeps %ld memory blocks", op, (long)(n.blocks - l.blocks));
        }
        probe (op);
    }
};
// ---- the operations; each cleans up what it created
static void io_small (int fd, const char *op)
{
    int fl = sim_fcntl (fd, F_GETFL);
    CHECK (fl & O_NONBLOCK, "usable", "%s succeeded but the descriptor blocks", op);
}
static void op_task ()
{
    static const int sizes[] = { -1, 16384, 32768, 100000, 5000 };
    Before b ("task creation");
    int sz = pick (sizes);
    HevTask *t = hev_task_new (sz);
    if (!t)
        return b.failed ("no task");
    static uint64_t ran;
    ran = 0;
    if (choose (2)) {
        hev_task_ref (t);
        hev_task_run (t, [] (void *p) { (*(uint64_t *)p)++; }, &ran);
        for (int i = 0; i < 40 && !ran; i++)
            yield ();
        for (int i = 0; i < 40 && hev_task_get_state (t) != HEV_TASK_STOPPED; i++)
            yield ();
    }
    hev_task_unref (t);
}
static void op_channel ()
{
    Before b ("channel creation");
    HevTaskChannel *a = nullptr, *c = nullptr;
    bool buf = choose (2);
    int r = !buf ? hev_task_channel_new (&a, &c) : hev_task_channel_new_with_buffers (&a, &c, 1 + noise () % 200, 1 + choose (4));
    if (r < 0)
        return b.failed ("no channel");
    char x = 7, y = 0;
    if (buf)
        hev_task_channel_write (a, &x, 1);
    CHECK (!buf || (hev_task_channel_read (c, &y, 1) == 1 && y == 7), "usable", "a channel created under refusals does not work");
    hev_task_channel_destroy (a);
    hev_task_channel_destroy (c);
}
static void op_select ()
{
    Before b ("channel select creation");
    HevTaskChannelSelect *s = hev_task_channel_select_new ();
    if (!s)
        return b.failed ("no select");
    hev_task_channel_select_destroy (s);
}
static void op_buffer ()
{
    Before b ("ring buffer creation");
    HevCircularBuffer *s = hev_circular_buffer_new (1 + noise () % 9000);
    if (!s)
        return b.failed ("no buffer");
    struct iovec v[2];
    CHECK (hev_circular_buffer_writing (s, v) >= 1, "usable", "a fresh ring buffer has no room");
    memset (v[0].iov_base, 1, v[0].iov_len);
    hev_circular_buffer_unref (s);
}
static void op_call ()
{
    Before b ("call stack creation");
    HevTaskCall *c = hev_task_call_new (sizeof (HevTaskCall), 32768);
    if (!c)
        return b.failed ("no call");
    void *r = hev_task_call_jump (c, [] (HevTaskCall *c) { hev_task_call_set_retval (c, (void *)0x77); });
    CHECK (r == (void *)0x77, "usable", "a call created under refusals does not work");
    hev_task_call_destroy (c);
}
static void op_pipe ()
{
    Before b ("pipe creation");
    int p[2] = { -7, -7 };
    if (hev_task_io_pipe_pipe (p) < 0)
        return b.failed ("no pipe");
    io_small (p[0], b.op);
    io_small (p[1], b.op);
    sim_close (p[0]);
    sim_close (p[1]);
}
static void op_socket ()
{
    Before b ("socket creation");
    int fd = hev_task_io_socket_socket (AF_INET, choose (2) ? SOCK_STREAM : SOCK_DGRAM, 0);
    if (fd < 0)
        return b.failed ("no socket");
    io_small (fd, b.op);
    sim_close (fd);
}
static void op_socketpair ()
{
    Before b ("socket pair creation");
    int p[2] = { -7, -7 };
    if (hev_task_io_socket_socketpair (AF_UNIX, SOCK_STREAM, 0, p) < 0)
        return b.failed ("no pair");
    io_small (p[0], b.op);
    io_small (p[1], b.op);
    sim_close (p[0]);
    sim_close (p[1]);
}
static void op_open ()
{
    static const char *names[] = { "open", "creat", "openat" };
    int k = choose (3);
    Before b (names[k]);
    int fd = k == 0 ? hev_task_io_open ("/a", O_CREAT | O_RDWR, 0644) : k == 1 ? hev_task_io_creat ("/b", 0600) : hev_task_io_openat (AT_FDCWD, "/c", O_CREAT | O_RDWR, 0600);
    if (fd < 0)
        return b.failed ("no file");
    io_small (fd, b.op);
    sim_close (fd);
}
static void op_dup ()
{
    int p[2];
    R.immune++;
    sim_pipe2 (p, O_NONBLOCK);
    int spare = sim_dup (p[1]);
    R.immune--;
    if (choose (2)) {
        Before b ("dup");
        int fd = hev_task_io_dup (p[0]);
        if (fd < 0)
            b.failed ("no descriptor");
        else {
            io_small (fd, b.op);
            sim_close (fd);
        }
    } else {
        // the target is closed by a successful dup2 and may be by a failing one
        Before b ("dup2", false);
        int fd = hev_task_io_dup2 (p[0], spare);
        if (fd < 0)
            b.failed ("no descriptor");
        else {
            CHECK (fd == spare, "usable", "dup2 returns another descriptor");
            io_small (fd, b.op);
        }
    }
    sim_close (p[0]);
    sim_close (p[1]);
    if (file (spare))
        sim_close (spare);
}
static void write_later (int w)
{
    FileP f = file (w);
    after (1000000 + noise () % 3000000, [w, f] {
        if (file (w) != f)
            return;
        R.immune++;
        sim_write (w, "x", 1);
        R.immune--;
    });
}
// registration is refused; afterwards the descriptor can be registered and works
static void op_register ()
{
    int p[2];
    R.immune++;
    sim_pipe2 (p, O_NONBLOCK);
    R.immune--;
    Before b ("registration");
    bool have = true;
    HevTask *me = hev_task_self ();
    if (hev_task_add_fd (me, p[0], POLLIN) < 0) {
        b.failed ("not added");
        have = false;
    } else if (choose (2)) {
        Before b2 ("change of a registration");
        if (hev_task_mod_fd (me, p[0], POLLIN | POLLERR) < 0)
            b2.failed ("not changed");
    }
    if (!have) {
        R.immune++;
        CHECK (hev_task_add_fd (me, p[0], POLLIN) == 0, "recovery", "a descriptor cannot be registered after a refusal");
        R.immune--;
    }
    int w = p[1];
    if (choose (2))
        write_later (w);
    else
        sim_write (w, "x", 1);
    char c = 0;
    self ()->what = "read after a refused registration";
    CHECK (hev_task_io_read (p[0], &c, 1, NULL, NULL) == 1 && c == 'x', "usable", "a registration after a refusal does not work");
    turn_no++;
    self ()->what = "";
    hev_task_del_fd (me, p[0]);
    sim_close (p[0]);
    sim_close (p[1]);
}
static void op_poll ()
{
    int p[2];
    R.immune++;
    sim_pipe2 (p, O_NONBLOCK);
    R.immune--;
    Before b ("poll");
    HevTaskIOPollFD f;
    memset (&f, 0, sizeof f);
    f.fd = p[0];
    f.events = POLLIN;
    int w = p[1];
    write_later (w);
    self ()->what = "poll with a refused registration";
    int r = hev_task_io_poll (&f, 1, choose (2) ? -1 : 200);
    turn_no++;
    self ()->what = "";
    if (r < 0)
        b.failed ("not waited");
    else if (r == 0)
        CHECK (b.fired (), "failure", "poll times out although its descriptor became ready");
    else
        CHECK (f.revents & POLLIN, "usable", "poll returns another event");
    if (r <= 0) {
        hev_task_sleep (20);
        turn_no++;
    }
    R.immune++;
    hev_task_del_fd (hev_task_self (), p[0]);
    R.immune--;
    sim_close (p[0]);
    sim_close (p[1]);
}
// a relay that cannot be set up ends at once and leaves the data where it is
static void op_relay ()
{
    int a[2], c[2];
    HevTask *me = hev_task_self ();
    R.immune++;
    sim_socketpair (AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, a);
    sim_socketpair (AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, c);
    hev_task_add_fd (me, a[1], POLLIN | POLLOUT);
    hev_task_add_fd (me, c[1], POLLIN | POLLOUT);
    R.immune--;
    sim_write (a[0], "hello", 5);
    sim_shutdown (a[0], SHUT_WR);
    sim_shutdown (c[0], SHUT_WR);
    bool streams = choose (2);
    HevTaskCIO *sa = nullptr, *sc = nullptr;
    if (streams) {
        R.immune++;
        sa = hev_task_cio_fd_new (a[1], a[1]);
        sc = hev_task_cio_fd_new (c[1], c[1]);
        R.immune--;
    }
    Before b (streams ? "stream relay" : "relay");
    self ()->what = b.op;
    if (streams)
        hev_task_cio_splice (sa, sc, 100, NULL, NULL);
    else
        hev_task_io_splice (a[1], a[1], c[1], c[1], 100, NULL, NULL);
    turn_no++;
    self ()->what = "";
    Ledger n = ledger ();
    CHECK (pressure || b.g != gone || n.fds == b.l.fds, "given-back", "a relay keeps %ld descriptors", (long)(n.fds - b.l.fds));
    char t[10] = {};
    ssize_t r = sim_read (c[0], t, 10);
    if (r == 5)
        CHECK (!memcmp (t, "hello", 5), "content", "a relay passed other bytes on");
    else {
        size_t left = file (a[1])->rx->q.size ();
        // a stream relay may end with its second direction
        CHECK (b.fired () || streams, "failure", "a relay ends after %ld of 5 bytes although nothing was refused", (long)r);
        if (r <= 0 && b.fired ()) {
            CHECK (left == 5 || streams, "given-back", "a relay that could not be set up lost %zu bytes", 5 - left);
            b.failed ("not set up");
        }
    }
    R.immune++;
    hev_task_del_fd (me, a[1]);
    hev_task_del_fd (me, c[1]);
    R.immune--;
    if (streams) {
        g_unref (sa);
        g_unref (sc);
    } else {
        sim_close (a[1]);
        sim_close (c[1]);
    }
    sim_close (a[0]);
    sim_close (c[0]);
}
static void op_streams ()
{
    static const char *names[] = { "descriptor stream creation", "socket stream creation", "null stream creation", "buffer stream creation" };
    int k = choose (4), p[2];
    R.immune++;
    sim_socketpair (AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, p);
    R.immune--;
    Before b (names[k]);
    HevTaskCIO *c = k == 0 ? hev_task_cio_fd_new (p[0], p[0]) : k == 1 ? hev_task_cio_socket_new (AF_UNIX, p[0]) : k == 2 ? hev_task_cio_null_new () : hev_task_cio_buffer_new (noise () % 100, noise () % 100);
    if (!c)
        b.failed ("no stream");
    else
        g_unref (c);
    if (!c || k >= 2)
        sim_close (p[0]);
    sim_close (p[1]);
}
static void op_accept ()
{
    std::string addr = make_addr (0x7f000001, 1000 + port++);
    HevTask *me = hev_task_self ();
    R.immune++;
    int l = hev_task_io_socket_socket (AF_INET, SOCK_STREAM, 0);
    sim_bind (l, (struct sockaddr *)addr.data (), addr.size ());
    sim_listen (l, 4);
    hev_task_add_fd (me, l, POLLIN);
    R.immune--;
    uint64_t id;
    FileP e = ext_connect (addr, &id);
    hev_task_sleep (3);
    turn_no++;
    Before b ("accept");
    self ()->what = "accept";
    int fd = hev_task_io_socket_accept (l, NULL, NULL, NULL, NULL);
    turn_no++;
    self ()->what = "";
    if (fd < 0)
        b.failed ("no connection");
    else {
        io_small (fd, b.op);
        sim_close (fd);
    }
    hev_task_del_fd (me, l);
    sim_close (l);
    if (e->tx)
        ext_close (e);
}
static void (*const ops[]) () = { op_task, op_channel, op_select, op_buffer, op_call, op_pipe, op_socket, op_socketpair, op_open, op_dup, op_register, op_poll, op_relay, op_streams, op_accept };
// ---- bystanders must not notice anything
static void bystander_read (int fd, uint32_t n)
{
    HevTask *me = hev_task_self ();
    R.immune++;
    hev_task_add_fd (me, fd, POLLIN);
    R.immune--;
    for (uint32_t i = 0; i < n; i++) {
        uint32_t v = 0;
        self ()->what = "bystander read";
        CHECK (hev_task_io_socket_recv (fd, &v, 4, MSG_WAITALL, NULL, NULL) == 4 && v == i * 2654435761u, "bystander", "another task lost data");
        turn_no++;
    }
    self ()->what = "";
    hev_task_del_fd (me, fd);
    sim_close (fd);
    gone++;
}
static void bystander_write (int fd, uint32_t n)
{
    HevTask *me = hev_task_self ();
    R.immune++;
    hev_task_add_fd (me, fd, POLLOUT);
    R.immune--;
    for (uint32_t i = 0; i < n; i++) {
        uint32_t v = i * 2654435761u;
        self ()->what = "bystander write";
        CHECK (hev_task_io_socket_send (fd, &v, 4, MSG_WAITALL, NULL, NULL) == 4, "bystander", "another task cannot send");
        turn_no++;
        if (choose (3) == 2) {
            uint64_t t0 = now (), d = 1 + choose (8);
            self ()->what = "bystander sleep";
            hev_task_sleep (d);
            turn_no++;
            (void)t0;
        }
    }
    self ()->what = "";
    hev_task_del_fd (me, fd);
    sim_close (fd);
    gone++;
}
static void bystanders ()
{
    int p[2];
    uint32_t n = 5 + choose (40);
    R.immune++;
    sim_socketpair (AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, p);
    R.immune--;
    spawn ([=] { bystander_read (p[0], n); }, rprio ());
    spawn ([=] { bystander_write (p[1], n); }, rprio ());
}
static void setup (bool faults)
{
    machine_random (faults);
    grant ();
    pressure = false;
    gone = port = 0;
    set_step_limit (600000);
}
// every refusal point of one operation, one after the other
static void each_point (void (*op) ())
{
    for (int k = 0; k < 14; k++) {
        uint64_t f0 = refusals ();
        int which = choose (3);
        uint32_t n = 1 + (choose (4) == 3 ? choose (4) : 0);
        if (which != 1) {
            M.alloc_fail_at = R.allocs + k;
            M.alloc_fail_n = n;
        }
        if (which != 0) {
            M.sys_fail_at = R.syscalls_fallible + k;
            M.sys_fail_n = n;
        }
        op ();
        grant ();
        if (refusals () == f0) {
            nontrivial ();
            break;
        }
    }
    // and without any
    op ();
}
SCENARIO ("P19", refused_operations, 6)
{
    setup (choose (4));
    Leak lk;
    sys_init ();
    uint32_t nops = 1 + choose (6);
    spawn ([=] {
        for (uint32_t i = 0; i < nops; i++) {
            each_point (ops[choose (sizeof ops / sizeof *ops)]);
            if (choose (2))
                yield ();
        }
    }, rprio ());
    uint32_t nb = choose (3);
    for (uint32_t i = 0; i < nb; i++)
        bystanders ();
    sys_run ();
    world_ends ();
    sys_fini ();
    lk.check ("after fini");
}
// refusals come at any time while several tasks work
SCENARIO ("P19", under_pressure, 3)
{
    static const uint32_t rates[] = { 20, 5, 60, 120 };
    setup (choose (4));
    Leak lk;
    sys_init ();
    pressure = true;
    uint32_t nt = 1 + choose (4);
    for (uint32_t t = 0; t < nt; t++) {
        uint32_t n = 1 + choose (12);
        spawn ([=] {
            for (uint32_t i = 0; i < n; i++) {
                ops[choose (sizeof ops / sizeof *ops)]();
                if (choose (2))
                    yield ();
            }
        }, rprio ());
    }
    uint32_t nb = choose (3);
    for (uint32_t i = 0; i < nb; i++)
        bystanders ();
    maybe_disturbers ();
    M.alloc_fail_rate = choose (3) ? pick (rates) : 0;
    M.sys_fail_rate = choose (3) ? pick (rates) : 0;
    sys_run ();
    grant ();
    world_ends ();
    sys_fini ();
    lk.check ("after fini");
    nontrivial ();
}
// starting the task system itself
SCENARIO ("P19", refused_start, 3)
{
    setup (choose (4));
    Leak lk;
    for (int k = 0; k < 16; k++) {
        int which = choose (3);
        uint32_t n = 1 + (choose (4) == 3 ? choose (4) : 0);
        if (which != 1) {
            M.alloc_fail_at = R.allocs + k;
            M.alloc_fail_n = n;
        }
        if (which != 0) {
            M.sys_fail_at = R.syscalls_fallible + k;
            M.sys_fail_n = n;
        }
        Before b ("start of a task system");
        int r = hev_task_system_init ();
        bool fired = b.fired ();
        grant ();
        if (r < 0) {
            CHECK (fired, "failure", "a task system does not start although nothing was refused");
            lk.check ("after a refused start");
            probe ("refused-start");
            continue;
        }
        // it works as always
        static int ran;
        ran = 0;
        HevTask *t = hev_task_new (-1);
        CHECK (t, "usable", "a task system started under refusals cannot create a task");
        hev_task_run (t, [] (void *) { hev_task_sleep (2); ran++; }, NULL);
        on_idle = [] () -> bool { fail ("stuck", "a task of a system started under refusals never ends"); };
        hev_task_system_run ();
        on_idle = nullptr;
        CHECK (ran == 1, "usable", "a task system started under refusals does not run its task");
        hev_task_system_fini ();
        lk.check ("after fini");
        nontrivial ();
        if (!fired)
            break;
    }
}
}
