// P11 message sockets.
#include "w_cio.h"
#include <netinet/in.h>
#include <sys/un.h>
using namespace w;
namespace p11 {
struct Sock { int fd = -1, fam = AF_INET; FileP f; std::string addr; uint64_t got = 0; bool stop = false, layered = false; Stack st; };
static const char STOP[] = "the end of this test";

static void breath ()
{
    switch (choose (6)) {
    case 0: case 1: case 2: break;
    case 3: yield (); break;
    case 4: hev_task_usleep (1 + noise () % 4000); turn_no++; break;
    case 5: hev_task_sleep (range (1, 30)); turn_no++; break;
    }
}
static std::string payload (uint64_t id)
{
    static const size_t sz[] = { 12, 0, 1, 40, 300, 1400 };
    size_t n = pick (sz);
    if (n > 1)
        n = 4 + noise () % n;
    std::string s (n, 0);
    for (size_t i = 0; i < n; i++)
        s[i] = (char)((id * 2654435761u + i * 40503u) >> 7);
    if (n >= 4)
        memcpy (&s[0], &id, 4);
    return s;
}
struct RMsg {
    struct msghdr m;
    std::vector<std::string> part;
    std::vector<struct iovec> v;
    char name[128];
    alignas (8) char ctl[1024];
    size_t nlen, clen;
    RMsg (size_t n, bool want_name, size_t ctlroom)
    {
        memset (&m, 0, sizeof m);
        memset (ctl, 0xc5, sizeof ctl);
        memset (name, 0xc5, sizeof name);
        uint32_t k = 1 + choose (3);
        size_t left = n;
        for (uint32_t i = 0; i < k; i++) {
            size_t s = i + 1 == k ? left : noise () % (left + 1);
            part.emplace_back (s + 16, (char)0xc5);
            left -= s;
        }
        for (auto &p : part)
            v.push_back (iovec{ &p[8], p.size () - 16 });
        m.msg_iov = v.data ();
        m.msg_iovlen = v.size ();
        if (want_name) {
            m.msg_name = name;
            m.msg_namelen = sizeof name;
        }
        if (ctlroom) {
            m.msg_control = ctl;
            m.msg_controllen = ctlroom;
        }
        m.msg_flags = 0x5a5a5a5a;
        nlen = m.msg_namelen;
        clen = ctlroom;
    }
    std::string data (size_t n)
    {
        std::string s;
        for (auto &x : v)
            s.append ((char *)x.iov_base, x.iov_len);
        for (auto &p : part)
            for (int i = 0; i < 8; i++)
                CHECK ((uint8_t)p[i] == 0xc5 && (uint8_t)p[p.size () - 1 - i] == 0xc5, "memory", "recvmsg wrote outside the given buffers");
        s.resize (n);
        return s;
    }
    // takes the descriptors out of the ancillary data
    std::vector<int> rights ()
    {
        std::vector<int> r;
        if (!m.msg_control || !m.msg_controllen)
            return r;
        CHECK (m.msg_controllen <= clen, "header", "recvmsg reports %zu bytes of ancillary data in a buffer of %zu", (size_t)m.msg_controllen, clen);
        for (size_t i = clen; i < sizeof ctl; i++)
            CHECK ((uint8_t)ctl[i] == 0xc5, "memory", "recvmsg wrote behind the buffer for ancillary data");
        for (struct cmsghdr *c = CMSG_FIRSTHDR (&m); c; c = CMSG_NXTHDR (&m, c))
            if (c->cmsg_level == SOL_SOCKET && c->cmsg_type == SCM_RIGHTS) {
                int n = (c->cmsg_len - CMSG_LEN (0)) / sizeof (int);
                for (int i = 0; i < n; i++) {
                    int x;
                    memcpy (&x, CMSG_DATA (c) + i * sizeof x, sizeof x);
                    r.push_back (x);
                }
            }
        return r;
    }
};
static bool is_stop (const Msg &m) { return m.d == STOP; }

static size_t addr_size (int fam) { return fam == AF_INET ? sizeof (struct sockaddr_in) : fam == AF_INET6 ? sizeof (struct sockaddr_in6) : sizeof (struct sockaddr_un); }
static std::string an_addr (int fam, int set, int i)
{
    return fam == AF_INET ? make_addr (0x7f000001 + set * 256 + i, 4000 + set * 1000 + i) : fam == AF_INET6 ? make_addr6 (set * 16 + i, 4000 + set * 1000 + i)
        : make_addr_unix ("/run/" + std::string (1 + i * 7, 'a' + set) + std::to_string (i));
}
static void sock_open (Sock &s, int fam, int set, int i)
{
    s.fam = fam;
    s.fd = hev_task_io_socket_socket (fam, SOCK_DGRAM, 0);
    CHECK (s.fd >= 0, "socket", "creating a socket failed");
    s.f = file (s.fd);
    s.addr = an_addr (fam, set, i);
    sim_bind (s.fd, (struct sockaddr *)s.addr.data (), s.addr.size ());
    s.layered = choose (3) == 2;
    if (s.layered) {
        R.immune++;
        s.st.l.push_back (Layer{ hev_task_cio_socket_new (fam, s.fd), 0, 0, 0 });
        R.immune--;
        CHECK (s.st.top (), "new", "creating a stream failed");
        s.st.fdi = s.st.fdo = s.fd;
        for (uint32_t n = choose (3); n; n--)
            stack_push (s.st);
    }
}
static void sock_close (Sock &s)
{
    hev_task_del_fd (hev_task_self (), s.fd);
    if (s.layered)
        stack_close (s.st);
    else
        sim_close (s.fd);
}
// what the network reports about earlier datagrams is passed on to the caller, once
static bool failed (Sock &s, const char *op, ssize_t r, uint64_t e0)
{
    int en = errno;
    if (s.f->errs == e0) {
        CHECK (r >= 0, "error", "%s on an intact socket returns %ld (%s)", op, (long)r, ename (en));
        return false;
    }
    probe ("error-passed-on");
    CHECK (r < 0, "error", "%s: the socket reported an error but the call returns %ld", op, (long)r);
    CHECK (s.f->errs == e0 + 1, "error", "%s reports one error where the socket reported %d", op, (int)(s.f->errs - e0));
    CHECK (en == ECONNREFUSED, "error", "%s: the socket reported ECONNREFUSED but the call reports %s", op, ename (en));
    return true;
}
// the same through a stack of streams
static void receive_layered (Sock &s)
{
    static const size_t caps[] = { 2000, 10, 1, 100, 400 };
    size_t cap = pick (caps), al = addr_size (s.fam);
    bool vec = choose (2), name = choose (3);
    const char *op = vec ? "stream vector datagram read" : "stream datagram read";
    std::string nb (al + 16, (char)0xc5);
    RMsg m (cap, false, 0);
    uint64_t p0 = s.f->pops, t0 = turn_no, e0 = s.f->errs;
    ssize_t r;
    errno = 0;
    std::string b (cap + 16, (char)0xc5);
    self ()->what = op;
    if (vec)
        r = hev_task_cio_readv_dgram (s.st.top (), m.v.data (), m.v.size (), name ? &nb[8] : NULL, NULL, NULL);
    else
        r = hev_task_cio_read_dgram (s.st.top (), &b[8], cap, name ? &nb[8] : NULL, NULL, NULL);
    turn_no++;
    if (turn_no > t0 + 2) { nontrivial (); probe ("receive-blocked"); }
    self ()->what = "";
    TR ("socket %d: %s up to %zu returns %ld", s.fd, op, cap, (long)r);
    if (failed (s, op, r, e0))
        return;
    CHECK (s.f->pops == p0 + 1, "once", "%s took %lu messages from the socket", op, (unsigned long)(s.f->pops - p0));
    Msg w = s.f->last_pop;
    s.got++;
    size_t k = std::min (cap, w.d.size ());
    CHECK ((size_t)r == k, "boundary", "%s of a %zu byte message into %zu bytes returns %ld", op, w.d.size (), cap, (long)r);
    if (!vec)
        CHECK ((uint8_t)b[cap + 8] == 0xc5 && (uint8_t)b[7] == 0xc5, "memory", "%s wrote outside the given buffer", op);
    std::string got = vec ? m.data (k) : b.substr (8, k);
    CHECK (got.compare (0, k, w.d, 0, k) == 0, "content", "%s: the message differs from the one that arrived", op);
    CHECK ((uint8_t)nb[al + 8] == 0xc5 && (uint8_t)nb[7] == 0xc5, "memory", "%s wrote outside the given address", op);
    if (name) {
        CHECK (!nb.compare (8, w.from.size (), w.from), "address", "%s reports a wrong sender address", op);
        probe ("stream-address");
    }
    if (is_stop (w))
        s.stop = true;
}
static void send_layered (Sock &s, const std::string *to, uint64_t id)
{
    std::string b = payload (id);
    bool vec = choose (2);
    const char *op = vec ? "stream vector datagram write" : "stream datagram write";
    std::string nb = to ? *to : "";
    nb.resize (addr_size (s.fam));
    std::vector<struct iovec> v;
    size_t o = 0;
    uint32_t k = 1 + choose (3);
    for (uint32_t i = 0; i < k; i++) {
        size_t n = i + 1 == k ? b.size () - o : noise () % (b.size () - o + 1);
        v.push_back (iovec{ &b[o], n });
        o += n;
    }
    uint64_t n0 = s.f->sends, t0 = turn_no, e0 = s.f->errs;
    ssize_t r;
    self ()->what = op;
    errno = 0;
    if (vec)
        r = hev_task_cio_writev_dgram (s.st.top (), v.data (), v.size (), to ? nb.data () : NULL, NULL, NULL);
    else
        r = hev_task_cio_write_dgram (s.st.top (), b.data (), b.size (), to ? nb.data () : NULL, NULL, NULL);
    turn_no++;
    self ()->what = "";
    if (turn_no > t0 + 1) { nontrivial (); probe ("send-blocked"); }
    TR ("socket %d: %s returns %ld", s.fd, op, (long)r);
    if (failed (s, op, r, e0)) {
        CHECK (s.f->sends == n0, "once", "%s fails but sent the message", op);
        return;
    }
    CHECK (r == (ssize_t)b.size (), "boundary", "%s of a %zu byte message returns %ld", op, b.size (), (long)r);
    CHECK (s.f->sends == n0 + 1, "once", "%s of one message sent %lu", op, (unsigned long)(s.f->sends - n0));
    CHECK (s.f->last_sent == b, "content", "%s sent a message that differs from the given one", op);
    if (to) {
        CHECK (s.f->last_to == *to, "address", "%s sent to another address", op);
        probe ("stream-to-address");
    }
}
// one receive, compared with the message the kernel really handed out
static void receive_one (Sock &s, bool pair)
{
    static const size_t caps[] = { 2000, 10, 1, 100, 400 };
    size_t cap = pick (caps);
    int op = choose (5), flags = 0;
    bool name = choose (2);
    static const size_t rooms[] = { 128, 128, 4, 16, 1, 24 };
    size_t room = pair && op == 4 ? (choose (4) == 3 ? CMSG_SPACE (sizeof (int)) : choose (5) == 4 ? 0 : 512) : 0;
    if (op >= 2 && choose (5) == 4)
        flags = choose (2) ? MSG_PEEK : MSG_TRUNC;
    uint64_t p0 = s.f->pops;
    ssize_t r;
    std::string got;
    char nb[128];
    socklen_t nl = pick (rooms), nroom = nl;
    RMsg m (cap, name, room);
    if (name)
        m.m.msg_namelen = nl;
    uint64_t t0 = turn_no, e0 = s.f->errs;
    self ()->what = read_name[op];
    TR ("socket %d: %s up to %zu%s", s.fd, read_name[op], cap, flags == MSG_PEEK ? " (peek)" : flags ? " (true length)" : "");
    memset (nb, 0xc5, sizeof nb);
    errno = 0;
    if (op == 4)
        r = hev_task_io_socket_recvmsg (s.fd, &m.m, flags, NULL, NULL);
    else if (op == 3) {
        std::string b (cap + 16, (char)0xc5);
        r = hev_task_io_socket_recvfrom (s.fd, &b[8], cap, flags, name ? (struct sockaddr *)nb : NULL, name ? &nl : NULL, NULL, NULL);
        CHECK ((uint8_t)b[cap + 8] == 0xc5 && (uint8_t)b[7] == 0xc5, "memory", "recvfrom wrote outside the given buffer");
        got.assign (b, 8, cap);
    } else {
        std::string b (cap, 0);
        r = read_op (op, s.fd, &b[0], cap, flags, NULL, NULL);
        got = b;
    }
    turn_no++;
    if (turn_no > t0 + 2) { nontrivial (); probe ("receive-blocked"); }
    self ()->what = "";
    TR ("socket %d: %s returns %ld", s.fd, read_name[op], (long)r);
    if (failed (s, read_name[op], r, e0))
        return;
    bool peek = flags == MSG_PEEK;
    Msg w;
    if (peek) {
        CHECK (s.f->pops == p0, "once", "%s with peek consumed a message", read_name[op]);
        CHECK (!s.f->mq.empty (), "invented", "%s with peek returned although no message is there", read_name[op]);
        w = s.f->mq.front ();
    } else {
        CHECK (s.f->pops == p0 + 1, "once", "%s took %lu messages from the socket", read_name[op], (unsigned long)(s.f->pops - p0));
        w = s.f->last_pop;
        s.got++;
    }
    size_t want = flags == MSG_TRUNC ? w.d.size () : std::min (cap, w.d.size ());
    CHECK ((size_t)r == want, "boundary", "%s of a %zu byte message into %zu bytes returns %ld", read_name[op], w.d.size (), cap, (long)r);
    size_t k = std::min (cap, w.d.size ());
    if (op == 4)
        got = m.data (cap);
    CHECK (got.compare (0, k, w.d, 0, k) == 0, "content", "%s: the message differs from the one that arrived", read_name[op]);
    size_t nk = std::min<size_t> (nroom, w.from.size ());
    if (name && nk < w.from.size ())
        probe ("address cut");
    if (name && op == 3) {
        CHECK (nk == sizeof nb || (uint8_t)nb[nk] == 0xc5, "memory", "recvfrom wrote outside the given address");
        CHECK (nl == w.from.size () && !memcmp (nb, w.from.data (), nk), "address", "recvfrom reports a wrong sender address (length %u)", nl);
        probe ("address");
    }
    if (op == 4) {
        if (name) {
            CHECK (m.m.msg_namelen == w.from.size (), "address", "recvmsg reports a sender address of %u bytes instead of %zu", m.m.msg_namelen, w.from.size ());
            CHECK (nk == sizeof m.name || (uint8_t)m.name[nk] == 0xc5, "memory", "recvmsg wrote outside the given address");
            CHECK (!memcmp (m.name, w.from.data (), nk), "address", "recvmsg reports a wrong sender address");
            probe ("address");
        }
        int fl = m.m.msg_flags;
        CHECK (fl != 0x5a5a5a5a, "header", "recvmsg leaves msg_flags unset");
        CHECK (!!(fl & MSG_TRUNC) == (k < w.d.size ()), "header", "recvmsg %s a cut message (%zu into %zu)", fl & MSG_TRUNC ? "reports" : "does not report", w.d.size (), cap);
        if (fl & MSG_TRUNC)
            probe ("cut");
        if (!peek) {
            std::vector<int> fds = m.rights ();
            size_t need = CMSG_SPACE (sizeof (int) * w.rights.size ());
            bool fits = w.rights.empty () || room >= need;
            CHECK (!!(fl & MSG_CTRUNC) == !fits, "header", "recvmsg %s lost ancillary data", fl & MSG_CTRUNC ? "reports" : "does not report");
            CHECK (fds.size () == (fits ? w.rights.size () : 0), "ancillary", "a message with %zu descriptors delivers %zu", w.rights.size (), fds.size ());
            for (size_t i = 0; i < fds.size (); i++) {
                CHECK (file (fds[i]) == w.rights[i], "ancillary", "a received descriptor refers to something else");
                probe ("rights");
                sim_close (fds[i]);
            }
        }
    }
    if (!peek && is_stop (w))
        s.stop = true;
}
// one send, compared with what the kernel really saw
static void send_one (Sock &s, const std::string *to, bool pair, uint64_t id)
{
    std::string b = payload (id);
    int op = to ? 3 + choose (2) : choose (5), flags = op >= 2 && choose (3) == 2 ? MSG_WAITALL : 0;
    uint64_t n0 = s.f->sends, t0 = turn_no, e0 = s.f->errs;
    ssize_t r;
    errno = 0;
    std::vector<FileP> give;
    std::vector<int> gfd;
    self ()->what = write_name[op];
    TR ("socket %d: %s of %zu bytes", s.fd, write_name[op], b.size ());
    if (op == 4) {
        struct msghdr m;
        alignas (8) char ctl[256];
        memset (&m, 0, sizeof m);
        uint32_t k = 1 + choose (3);
        std::vector<struct iovec> v;
        size_t o = 0;
        for (uint32_t i = 0; i < k; i++) {
            size_t n = i + 1 == k ? b.size () - o : noise () % (b.size () - o + 1);
            v.push_back (iovec{ &b[o], n });
            o += n;
        }
        m.msg_iov = v.data ();
        m.msg_iovlen = v.size ();
        if (to) {
            m.msg_name = (void *)to->data ();
            m.msg_namelen = to->size ();
        }
        if (pair && choose (2)) {
            uint32_t c = 1 + choose (3);
            memset (ctl, 0, sizeof ctl);
            m.msg_control = ctl;
            m.msg_controllen = CMSG_SPACE (sizeof (int) * c);
            struct cmsghdr *h = CMSG_FIRSTHDR (&m);
            h->cmsg_level = SOL_SOCKET;
            h->cmsg_type = SCM_RIGHTS;
            h->cmsg_len = CMSG_LEN (sizeof (int) * c);
            for (uint32_t i = 0; i < c; i++) {
                int x;
                R.immune++;
                FileP e = ext_pipe_in (&x, 16);
                R.immune--;
                give.push_back (file (x));
                gfd.push_back (x);
                memcpy (CMSG_DATA (h) + i * sizeof x, &x, sizeof x);
            }
        }
        r = hev_task_io_socket_sendmsg (s.fd, &m, flags, NULL, NULL);
        turn_no++;
    } else if (op == 3 && to) {
        r = hev_task_io_socket_sendto (s.fd, b.data (), b.size (), flags, (const struct sockaddr *)to->data (), to->size (), NULL, NULL);
        turn_no++;
    } else
        r = write_op (op, s.fd, b.data (), b.size (), flags, NULL, NULL);
    self ()->what = "";
    if (turn_no > t0 + 1) { nontrivial (); probe ("send-blocked"); }
    TR ("socket %d: %s returns %ld", s.fd, write_name[op], (long)r);
    if (failed (s, write_name[op], r, e0)) {
        CHECK (s.f->sends == n0, "once", "%s fails but sent the message", write_name[op]);
        for (int x : gfd)
            sim_close (x);
        return;
    }
    CHECK (r == (ssize_t)b.size (), "boundary", "%s of a %zu byte message returns %ld", write_name[op], b.size (), (long)r);
    CHECK (s.f->sends == n0 + 1, "once", "%s of one message sent %lu", write_name[op], (unsigned long)(s.f->sends - n0));
    CHECK (s.f->last_sent == b, "content", "%s sent a message that differs from the given one", write_name[op]);
    if (to)
        CHECK (s.f->last_to == *to, "address", "%s sent to another address", write_name[op]);
    for (int x : gfd)
        sim_close (x);
}
// an earlier datagram turns out to have reached nobody
static void network_error (FileP f, uint64_t delay)
{
    after (delay, [f] {
        if (!f->nfd)
            return;
        fault (F_IO_ERROR);
        f->err = ECONNREFUSED;
        notify (f.get (), POLLERR);
    });
}
static std::vector<Sock> socks;
SCENARIO ("P11", datagrams, 8)
{
    bool faults = choose (4);
    machine_random (faults);
    static const uint32_t rates[] = { 0, 20, 80 };
    if (faults) {
        N.loss = pick (rates);
        N.dup = pick (rates);
        N.reorder = choose (2);
        N.delay = choose (2);
    }
    Leak lk;
    socks.clear ();
    sys_init ();
    uint32_t n = 2 + choose (3);
    static const int fams[] = { AF_INET, AF_INET6, AF_UNIX };
    int fam = pick (fams);
    for (uint32_t i = 0; i < n; i++) {
        Sock s;
        sock_open (s, fam, 0, i);
        if (choose (3) == 2)
            s.f->mcap = 1 + choose (4);
        socks.push_back (s);
    }
    uint32_t m = 1 + choose (3), per = 1 + choose (12);
    bool errors = faults && fam != AF_UNIX && choose (2);
    for (uint32_t i = 0; i < n; i++)
        spawn ([i, errors] {
            Sock &s = socks[i];
            CHECK (hev_task_add_fd (hev_task_self (), s.fd, POLLIN) == 0, "registration", "registering a socket failed");
            while (!s.stop) {
                if (errors && choose (8) == 7)
                    network_error (s.f, choose (2) * (noise () % 3000000));
                s.layered ? receive_layered (s) : receive_one (s, false);
                breath ();
            }
            sock_close (s);
        }, rprio ());
    static uint32_t senders;
    senders = 0;
    for (uint32_t i = 0; i < m; i++) {
        bool conn = fam != AF_UNIX && choose (3) == 2;
        uint32_t target = choose (n);
        senders++;
        spawn ([=] {
            Sock s;
            sock_open (s, fam, 1, i);
            CHECK (hev_task_add_fd (hev_task_self (), s.fd, POLLIN | POLLOUT) == 0, "registration", "registering a socket failed");
            if (conn)
                CHECK (hev_task_io_socket_connect (s.fd, (struct sockaddr *)socks[target].addr.data (), socks[target].addr.size (), NULL, NULL) == 0, "connect", "connecting a datagram socket failed");
            for (uint32_t k = 0; k < per; k++) {
                breath ();
                if (errors && choose (6) == 5)
                    network_error (s.f, choose (2) * (noise () % 3000000));
                const std::string *to = conn ? nullptr : &socks[choose (n)].addr;
                s.layered ? send_layered (s, to, i * 1000 + k + 1) : send_one (s, to, false, i * 1000 + k + 1);
            }
            sock_close (s);
            senders--;
        }, rprio ());
    }
    maybe_disturbers ();
    at_quiet ([] {
        // everything that arrived must have been taken
        for (auto &s : socks)
            CHECK (s.f->mq.empty (), "stuck", "a task waits for a message although %zu are in its socket", s.f->mq.size ());
        CHECK (!senders, "stuck", "a sender never finishes");
        for (auto &s : socks)
            ext_dgram (s.addr, an_addr (s.fam, 2, 1), STOP);
    });
    sys_run ();
    sys_fini ();
    socks.clear ();
    lk.check ("after fini");
}
// local datagram pairs: full queues, descriptors
SCENARIO ("P11", pairs, 6)
{
    bool faults = choose (4);
    machine_random (faults);
    N.random_caps = choose (4) != 0;
    Leak lk;
    socks.clear ();
    sys_init ();
    uint32_t n = 1 + choose (3);
    for (uint32_t i = 0; i < n; i++) {
        int p[2];
        CHECK (hev_task_io_socket_socketpair (AF_UNIX, SOCK_DGRAM, 0, p) == 0, "socketpair", "creating a socket pair failed");
        for (int j = 0; j < 2; j++) {
            Sock s;
            s.fd = p[j];
            s.f = file (p[j]);
            socks.push_back (s);
        }
    }
    uint32_t per = 1 + choose (14);
    for (uint32_t i = 0; i < n; i++) {
        spawn ([=] {
            Sock &s = socks[2 * i];
            CHECK (hev_task_add_fd (hev_task_self (), s.fd, POLLOUT) == 0, "registration", "registering a socket failed");
            for (uint32_t k = 0; k < per; k++) {
                breath ();
                send_one (s, nullptr, true, i * 1000 + k + 1);
            }
            hev_task_del_fd (hev_task_self (), s.fd);
        }, rprio ());
        spawn ([=] {
            Sock &s = socks[2 * i + 1];
            CHECK (hev_task_add_fd (hev_task_self (), s.fd, POLLIN) == 0, "registration", "registering a socket failed");
            while (s.got < per) {
                receive_one (s, true);
                breath ();
            }
            hev_task_del_fd (hev_task_self (), s.fd);
        }, rprio ());
    }
    maybe_disturbers ();
    sys_run ();
    for (auto &s : socks)
        sim_close (s.fd);
    sys_fini ();
    socks.clear ();
    lk.check ("after fini");
}
// ancillary data on a stream, also when a message is transferred in pieces
SCENARIO ("P11", stream_rights, 4)
{
    bool faults = choose (4);
    machine_random (faults);
    N.random_caps = choose (4) != 0;
    Leak lk;
    sys_init ();
    int p[2];
    CHECK (hev_task_io_socket_socketpair (AF_UNIX, SOCK_STREAM, 0, p) == 0, "socketpair", "creating a socket pair failed");
    Dir *d = dir_new ("S", 20 + choose (200));
    static std::vector<std::pair<uint64_t, std::vector<FileP>>> given;
    static size_t next;
    given.clear ();
    next = 0;
    bool all_r = choose (2);
    spawn ([=] {
        HevTask *t = hev_task_self ();
        hev_task_add_fd (t, p[0], POLLOUT);
        while (d->sent < d->total) {
            breath ();
            size_t n = std::min<size_t> (1 + choose (60), d->total - d->sent);
            std::string b = d->text (d->sent, n);
            struct msghdr m;
            alignas (8) char ctl[256];
            memset (&m, 0, sizeof m);
            memset (ctl, 0, sizeof ctl);
            size_t cut = noise () % (n + 1);
            struct iovec v[2] = { { &b[0], cut }, { &b[cut], n - cut } };
            m.msg_iov = v;
            m.msg_iovlen = 2;
            std::vector<int> gfd;
            if (given.size () < 6 && choose (2)) {
                uint32_t c = 1 + choose (2);
                m.msg_control = ctl;
                m.msg_controllen = CMSG_SPACE (sizeof (int) * c);
                struct cmsghdr *h = CMSG_FIRSTHDR (&m);
                h->cmsg_level = SOL_SOCKET;
                h->cmsg_type = SCM_RIGHTS;
                h->cmsg_len = CMSG_LEN (sizeof (int) * c);
                std::vector<FileP> fs;
                for (uint32_t i = 0; i < c; i++) {
                    int x;
                    ext_pipe_in (&x, 16);
                    fs.push_back (file (x));
                    gfd.push_back (x);
                    memcpy (CMSG_DATA (h) + i * sizeof x, &x, sizeof x);
                }
                given.emplace_back (d->sent, fs);
            }
            int flags = choose (4) ? MSG_WAITALL : 0;
            self ()->what = "sendmsg";
            TR ("sendmsg of %zu bytes at %lu with %zu descriptors%s", n, (unsigned long)d->sent, gfd.size (), flags ? " (all)" : "");
            uint64_t t0 = turn_no;
            ssize_t r = hev_task_io_socket_sendmsg (p[0], &m, flags, NULL, NULL);
            turn_no++;
            if (gfd.size () && turn_no > t0 + 1) { nontrivial (); probe ("rights-blocked"); }
            TR ("sendmsg returns %ld", (long)r);
            CHECK (r > 0 && (size_t)r <= n && (!flags || (size_t)r == n), "count", "sendmsg of %zu bytes on an intact stream returns %ld", n, (long)r);
            d->sent += r;
            for (int x : gfd)
                sim_close (x);
        }
        d->ended = true;
        hev_task_del_fd (t, p[0]);
        sim_close (p[0]);
    }, rprio ());
    spawn ([=] {
        HevTask *t = hev_task_self ();
        hev_task_add_fd (t, p[1], POLLIN);
        for (;;) {
            breath ();
            size_t n = 1 + choose (80);
            bool tight = choose (4) == 3;
            RMsg m (n, choose (2), tight ? CMSG_SPACE (sizeof (int) * (1 + choose (3))) + choose (2) * CMSG_SPACE (4) : 512);
            int flags = all_r && choose (2) ? MSG_WAITALL : 0;
            self ()->what = "recvmsg";
            TR ("recvmsg of %zu bytes at %lu%s", n, (unsigned long)d->got, flags ? " (all)" : "");
            ssize_t r = hev_task_io_socket_recvmsg (p[1], &m.m, flags, NULL, NULL);
            turn_no++;
            TR ("recvmsg returns %ld", (long)r);
            CHECK (r >= 0 && (size_t)r <= n, "count", "recvmsg of %zu bytes on an intact stream returns %ld", n, (long)r);
            if (!r) {
                CHECK (d->finished (), "end", "recvmsg reports the end of the stream at %lu", (unsigned long)d->got);
                break;
            }
            std::string b = m.data (n);
            uint64_t o = d->got;
            d->take (b.data (), r, "recvmsg");
            std::vector<int> fds = m.rights ();
            std::vector<FileP> want;
            size_t room = 0;
            while (next < given.size () && given[next].first < o + r) {
                for (auto &x : given[next].second)
                    want.push_back (x);
                room += CMSG_SPACE (sizeof (int) * given[next].second.size ());
                next++;
            }
            if (room > m.clen) {
                // no room for all of them: which are missing is not said, that some are is
                probe ("rights-cut");
                CHECK (fds.size () <= want.size (), "ancillary", "recvmsg invents descriptors");
                CHECK (fds.size () == want.size () || (m.m.msg_flags & MSG_CTRUNC), "header", "recvmsg does not report that ancillary data was lost");
                size_t k = 0;
                for (int x : fds) {
                    while (k < want.size () && want[k] != file (x))
                        k++;
                    CHECK (k++ < want.size (), "ancillary", "a received descriptor refers to something else");
                    sim_close (x);
                }
                continue;
            }
            CHECK (!(m.m.msg_flags & MSG_CTRUNC), "header", "recvmsg reports lost ancillary data although there was room");
            CHECK (fds.size () == want.size (), "ancillary", "bytes %lu to %lu carry %zu descriptors but recvmsg delivers %zu", (unsigned long)o, (unsigned long)(o + r), want.size (), fds.size ());
            for (size_t i = 0; i < fds.size (); i++) {
                CHECK (file (fds[i]) == want[i], "ancillary", "a received descriptor refers to something else");
                probe ("rights");
                sim_close (fds[i]);
            }
        }
        hev_task_del_fd (t, p[1]);
        sim_close (p[1]);
    }, rprio ());
    maybe_disturbers ();
    sys_run ();
    CHECK (d->got == d->total, "complete", "%lu of %lu bytes arrived", (unsigned long)d->got, (unsigned long)d->total);
    sys_fini ();
    given.clear ();
    lk.check ("after fini");
}
}
