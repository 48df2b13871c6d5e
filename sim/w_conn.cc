// P12 connect, accept and the creation of descriptors.
#include "w_stream.h"
#include <netinet/in.h>
#include <set>
using namespace w;
namespace p12 {
static void breath ()
{
    switch (choose (6)) {
    case 0: case 1: case 2: break;
    case 3: yield (); break;
    case 4: hev_task_usleep (1 + noise () % 4000); turn_no++; break;
    case 5: hev_task_sleep (range (1, 30)); turn_no++; break;
    }
}
struct Calm { Calm () { R.immune++; } ~Calm () { R.immune--; } };
static void add (int fd, uint32_t ev)
{
    Calm c;
    CHECK (hev_task_add_fd (hev_task_self (), fd, ev) == 0, "registration", "registering a descriptor failed");
}
static void drop_fd (int fd)
{
    Calm c;
    hev_task_del_fd (hev_task_self (), fd);
    sim_close (fd);
}
static bool stopping;
static std::set<uint64_t> accepted, lost;
static std::vector<int> lfds;
static std::vector<std::string> laddr;
static uint32_t nacc;
static int fam, names;
static std::string an_addr (int port)
{
    return fam == AF_INET ? make_addr (0x7f000001, port) : fam == AF_INET6 ? make_addr6 (1, port) : make_addr_unix ("/run/listener-with-a-long-name-" + std::to_string (port));
}
static Net::Conn *conn (uint64_t id)
{
    for (auto &c : N.conns)
        if (c.id == id)
            return &c;
    return nullptr;
}
// talks over an established connection: both sides learn who is at the other end
static bool say (int fd, uint64_t id, int n)
{
    ssize_t r = hev_task_io_socket_send (fd, &id, sizeof id, MSG_WAITALL, NULL, NULL);
    turn_no++;
    (void)n;
    return r == sizeof id;
}
static bool hear (int fd, uint64_t *id)
{
    ssize_t r = hev_task_io_socket_recv (fd, id, sizeof *id, MSG_WAITALL, NULL, NULL);
    turn_no++;
    return r == sizeof *id;
}
static void serve (int fd, uint64_t id)
{
    add (fd, POLLIN | POLLOUT);
    uint64_t x = 0;
    self ()->what = "serving a connection";
    if (hear (fd, &x)) {
        CHECK (x == id, "wrong", "the accepted connection is not the one reported");
        say (fd, id ^ 0x5555, 0);
    }
    breath ();
    drop_fd (fd);
}
static void acceptor (uint32_t li, int fd)
{
    add (fd, POLLIN);
    while (!stopping) {
        struct sockaddr_storage a;
        bool want = choose (3);
        socklen_t room = choose (6) == 5 ? choose (20) : sizeof a, al = room;
        memset (&a, 0xc5, sizeof a);
        uint64_t t0 = turn_no;
        size_t ab0 = R.faults[F_CONN_ABORT], fd0 = R.faults[F_FD_FAIL], st0 = R.faults[F_SETUP_FAIL];
        self ()->what = "accept";
        errno = 0;
        int r = hev_task_io_socket_accept (fd, want ? (struct sockaddr *)&a : NULL, want ? &al : NULL, NULL, NULL);
        int en = errno;
        turn_no++;
        if (turn_no > t0 + 1) { nontrivial (); probe ("accept-blocked"); }
        self ()->what = "";
        TR ("listener %u: accept returns %d", li, r);
        if (r < 0) {
            probe ("accept-failed");
            bool a1 = en == ECONNABORTED && R.faults[F_CONN_ABORT] > ab0, a2 = en == EMFILE && R.faults[F_FD_FAIL] > fd0, a3 = r < -1 && R.faults[F_SETUP_FAIL] > st0;
            CHECK (a1 || a2 || a3, "accept", "accept fails with %d (%s) without a reason", r, ename (en));
            continue;
        }
        FileP f = file (r);
        CHECK (f && f->type == T_STREAM, "accept", "accept returns a descriptor that is not a connection");
        CHECK (f->flags & O_NONBLOCK, "nonblocking", "the accepted connection is not non-blocking");
        CHECK (accepted.insert (f->conn).second, "once", "the same connection was accepted twice");
        Net::Conn *c = conn (f->conn);
        CHECK (c && c->outcome == 1 && c->saddr == laddr[li], "accept", "accept returns a connection of another listener");
        if (want) {
            size_t k = std::min<size_t> (room, c->caddr.size ());
            CHECK (al == c->caddr.size () && !memcmp (&a, c->caddr.data (), k), "address", "accept reports a wrong peer address");
            for (size_t i = k; i < sizeof a; i++)
                CHECK (((uint8_t *)&a)[i] == 0xc5, "memory", "accept wrote outside the given address");
            probe ("address");
        }
        if (stopping && f->peer.empty ()) { sim_close (r); break; }
        int nfd = r;
        uint64_t id = f->conn;
        Calm k;
        spawn ([nfd, id] { serve (nfd, id); }, rprio ());
    }
    drop_fd (fd);
    nacc--;
}
static void hang_up (FileP e)
{
    if (e->tx)
        ext_close (e);
    else if (e->cstate == 1)
        after (100000000, [e] { hang_up (e); });
}
static void client (uint32_t rounds)
{
    for (uint32_t k = 0; k < rounds; k++) {
        breath ();
        int fd;
        { Calm c; fd = hev_task_io_socket_socket (fam, SOCK_STREAM, 0); }
        CHECK (fd >= 0, "socket", "creating a socket failed");
        FileP f = file (fd);
        if (fam == AF_UNIX) {
            std::string a = make_addr_unix ("/run/client-" + std::to_string (names++));
            sim_bind (fd, (const struct sockaddr *)a.data (), a.size ());
        }
        CHECK (f->flags & O_NONBLOCK, "nonblocking", "a created socket is not non-blocking");
        add (fd, POLLIN | POLLOUT);
        uint32_t li = choose (laddr.size () + 1);
        std::string to = li < laddr.size () ? laddr[li] : an_addr (9);
        size_t n0 = N.conns.size ();
        uint64_t t0 = turn_no;
        self ()->what = "connect";
        errno = 0;
        TR ("connect to listener %u", li);
        int r = hev_task_io_socket_connect (fd, (const struct sockaddr *)to.data (), to.size (), NULL, NULL);
        int en = errno;
        turn_no++;
        if (turn_no > t0 + 1) { nontrivial (); probe ("connect-blocked"); }
        self ()->what = "";
        TR ("connect returns %d (%s)", r, r < 0 ? ename (en) : "ok");
        size_t mine = 0;
        for (size_t i = n0; i < N.conns.size (); i++)
            mine += N.conns[i].caddr == f->local;
        CHECK (mine == 1, "once", "one connect made %zu attempts", mine);
        Net::Conn *c = conn (f->conn);
        CHECK (c && c->saddr == to, "connect", "connect went to another address");
        CHECK (c->outcome, "early", "connect returns %d (%s) before the outcome is known", r, r < 0 ? ename (en) : "ok");
        if (f->was_reset && r == -1 && en == ECONNRESET)
            probe ("reset before connect returns");
        else if (c->outcome == 1 || c->outcome == 5) {
            CHECK (r == 0, "connect", "connect returns %d (%s) although the connection was established", r, ename (en));
            uint64_t x;
            probe ("connected");
            self ()->what = "talking";
            if (say (fd, f->conn, 0) && hear (fd, &x))
                CHECK (x == (f->conn ^ 0x5555), "wrong", "the connection leads to somebody else");
            else
                CHECK (lost.count (f->conn) || R.faults[F_CONN_ABORT] || R.faults[F_SETUP_FAIL], "usable", "an established connection is not usable");
            self ()->what = "";
        } else {
            int want = c->outcome == 2 ? ECONNREFUSED : c->err;
            probe (c->outcome == 2 ? "refused" : c->outcome == 3 ? "timed-out" : "unreachable");
            CHECK (r == -1, "connect", "connect returns %d although the connection failed with %s", r, ename (want));
            CHECK (en == want, "error", "connect failed with %s but reports %s", ename (want), ename (en));
        }
        drop_fd (fd);
    }
}
SCENARIO ("P12", connections, 10)
{
    bool faults = choose (4);
    machine_random (faults);
    static const uint32_t rates[] = { 0, 30, 100 };
    if (faults) {
        N.refuse = pick (rates);
        N.tmo = pick (rates);
        N.abort_ = pick (rates);
    }
    N.random_caps = choose (2);
    Leak lk;
    stopping = false;
    accepted.clear ();
    lost.clear ();
    lfds.clear ();
    laddr.clear ();
    nacc = names = 0;
    static const int fams[] = { AF_INET, AF_INET6, AF_UNIX };
    fam = pick (fams);
    sys_init ();
    uint32_t nl = 1 + choose (2);
    for (uint32_t i = 0; i < nl; i++) {
        int fd = hev_task_io_socket_socket (fam, SOCK_STREAM, 0);
        CHECK (fd >= 0, "socket", "creating a socket failed");
        laddr.push_back (an_addr (80 + i));
        sim_bind (fd, (struct sockaddr *)laddr[i].data (), laddr[i].size ());
        sim_listen (fd, 16);
        lfds.push_back (fd);
        uint32_t na = 1 + choose (3) / 2;
        for (uint32_t j = 0; j < na; j++) {
            int d = hev_task_io_dup (fd);
            CHECK (d >= 0, "dup", "duplicating a descriptor failed");
            nacc++;
            spawn ([i, d] { acceptor (i, d); }, rprio ());
        }
    }
    uint32_t nc = 1 + choose (4);
    for (uint32_t i = 0; i < nc; i++) {
        uint32_t k = 1 + choose (4);
        spawn ([k] { client (k); }, rprio ());
    }
    // clients from outside
    static std::vector<FileP> outside;
    outside.clear ();
    uint32_t no = choose (4);
    for (uint32_t i = 0; i < no; i++)
        at (now () + noise () % 200000000, [nl] {
            uint64_t id;
            FileP e = ext_connect (laddr[noise () % nl], &id);
            outside.push_back (e);
            // hangs up after a while without a word
            after (noise () % 400000000, [e] { hang_up (e); });
        });
    if (faults && choose (2)) {
        // 1.6%..6% of the descriptor creations fail
        static const uint32_t fr[] = { 4, 16 };
        M.sys_fail_rate = pick (fr);
    }
    maybe_disturbers ();
    at_quiet ([] {
        for (int fd : lfds)
            CHECK (file (fd)->aq.empty (), "stuck", "a task waits in accept although %zu connections are waiting", file (fd)->aq.size ());
        for (auto &c : N.conns)
            if (c.outcome == 1 && !c.accepted)
                fail ("lost", "an established connection was never accepted");
        stopping = true;
        N.refuse = N.tmo = N.abort_ = 0;
        M.sys_fail_rate = 0;
        for (auto &a : laddr)
            for (uint32_t i = 0; i < 4; i++) {
                uint64_t id;
                FileP e = ext_connect (a, &id);
                outside.push_back (e);
                after (5000000000ull, [e] { hang_up (e); });
            }
    });
    sys_run ();
    for (int fd : lfds)
        sim_close (fd);
    M.sys_fail_rate = 0;
    outside.clear ();
    sys_fini ();
    lk.check ("after fini");
}
// creation of descriptors, also when the system refuses
SCENARIO ("P12", creation, 6)
{
    bool faults = choose (4);
    machine_random (faults);
    Leak lk;
    sys_init ();
    uint32_t n = 1 + choose (10);
    bool in_task = choose (2);
    auto body = [n, faults] {
        std::vector<int> open;
        for (uint32_t k = 0; k < n; k++) {
            if (faults && choose (2)) {
                M.sys_fail_at = R.syscalls_fallible + choose (4);
                M.sys_fail_n = 1 + choose (2);
                M.sys_fail_rate = 0;
            } else
                M.sys_fail_at = -1;
            size_t before = open_fds ();
            uint64_t f0 = R.faults[F_FD_FAIL] + R.faults[F_SETUP_FAIL];
            int v[2] = { -1, -1 }, r, cnt = 1;
            const char *what;
            bool expect_fail = false;
            size_t gone = 0;
            switch (choose (9)) {
            case 0:
                what = "socket";
                r = v[0] = hev_task_io_socket_socket (choose (2) ? AF_INET : AF_UNIX, choose (2) ? SOCK_STREAM : SOCK_DGRAM, 0);
                break;
            case 1:
                what = "socketpair";
                r = hev_task_io_socket_socketpair (AF_UNIX, choose (2) ? SOCK_STREAM : SOCK_DGRAM, 0, v);
                cnt = 2;
                break;
            case 2:
                what = "pipe";
                r = hev_task_io_pipe_pipe (v);
                cnt = 2;
                break;
            case 3: {
                what = "dup";
                int src = -1;
                bool bad = choose (6) == 5;
                if (!bad && !open.empty ())
                    src = open[choose (open.size ())];
                else if (!bad) { R.immune++; FileP e = ext_pipe_in (&src, 16); R.immune--; open.push_back (src); before++; file (src)->flags &= ~O_NONBLOCK; }
                expect_fail = src < 0;
                r = v[0] = hev_task_io_dup (src);
                if (r >= 0) CHECK (file (r) == file (src), "wrong", "a duplicate refers to something else");
                break; }
            case 4: {
                what = "dup2";
                int src = -1;
                bool bad = choose (6) == 5;
                if (!bad && !open.empty ())
                    src = open[choose (open.size ())];
                else if (!bad) { R.immune++; FileP e = ext_pipe_in (&src, 16); R.immune--; open.push_back (src); before++; file (src)->flags &= ~O_NONBLOCK; }
                int dst = 40 + choose (20);
                size_t over = ~0ul;
                if (open.size () > 1 && choose (2)) {
                    over = choose (open.size ());
                    if (open[over] == src)
                        over = ~0ul;
                    else
                        dst = open[over];
                }
                if (over == ~0ul && file (dst))
                    continue;
                expect_fail = src < 0;
                uint64_t s0 = R.faults[F_SETUP_FAIL];
                r = v[0] = hev_task_io_dup2 (src, dst);
                if (r >= 0) {
                    CHECK (r == dst, "wrong", "dup2 returns another descriptor than asked for");
                    CHECK (file (r) == file (src), "wrong", "a duplicate refers to something else");
                }
                // the old descriptor is replaced, or lost with the failed duplicate
                if (over != ~0ul && (r >= 0 || R.faults[F_SETUP_FAIL] > s0)) {
                    open.erase (open.begin () + over);
                    gone = 1;
                }
                break; }
            case 5: {
                what = "open";
                bool exists = fs.count ("/sim/x");
                expect_fail = !exists;
                r = v[0] = choose (2) ? hev_task_io_open ("/sim/x", choose (2) ? O_RDONLY : O_RDWR) : hev_task_io_openat (AT_FDCWD, "/sim/x", O_RDWR);
                break; }
            case 6: case 7: {
                what = "open with create";
                mode_t mode = choose (2) ? 0600 : 0751;
                N.open_mode = 0;
                r = v[0] = choose (2) ? hev_task_io_open ("/sim/x", O_RDWR | O_CREAT, mode) : hev_task_io_openat (AT_FDCWD, "/sim/x", O_WRONLY | O_CREAT | O_TRUNC, mode);
                if (r >= 0) CHECK (N.open_mode == mode, "mode", "a file is created with mode %o instead of %o", (unsigned)N.open_mode, (unsigned)mode);
                break; }
            default: {
                what = "creat";
                fs["/sim/x"] = std::make_shared<std::string> ("old");
                N.open_mode = 0;
                r = v[0] = hev_task_io_creat ("/sim/x", 0640);
                if (r >= 0) {
                    CHECK (N.open_mode == 0640, "mode", "creat: a file is created with mode %o instead of 640", (unsigned)N.open_mode);
                    CHECK (fs["/sim/x"]->empty (), "content", "creat does not empty the file");
                    CHECK (file (r)->accmode == O_WRONLY, "mode", "creat does not open for writing");
                }
                break; }
            }
            bool fi = R.faults[F_FD_FAIL] + R.faults[F_SETUP_FAIL] > f0;
            TR ("%s returns %d%s", what, r, fi ? " (refused)" : "");
            if (r >= 0) {
                nontrivial ();
                CHECK (!expect_fail, "result", "%s of something invalid succeeds", what);
                CHECK (open_fds () == before + cnt - gone, "leak", "%s leaves %ld descriptors instead of %d:%s", what, (long)(open_fds () - before + gone), cnt, open_fds_detail ().c_str ());
                for (int i = 0; i < cnt; i++) {
                    FileP f = file (v[i]);
                    CHECK (f, "result", "%s returns a descriptor that is not open", what);
                    CHECK (f->flags & O_NONBLOCK, "nonblocking", "%s: the descriptor is not non-blocking", what);
                    open.push_back (v[i]);
                }
            } else {
                probe (fi ? "creation-refused" : "creation-invalid");
                CHECK (fi || expect_fail, "result", "%s fails with %d without a reason", what, r);
                CHECK (open_fds () == before - gone, "leak", "a failed %s leaves %ld descriptors behind:%s", what, (long)(open_fds () - before + gone), open_fds_detail ().c_str ());
            }
        }
        M.sys_fail_at = -1;
        for (int fd : open)
            sim_close (fd);
    };
    if (in_task) {
        spawn (body);
        sys_run ();
    } else
        body ();
    sys_fini ();
    lk.check ("after fini");
}
}
