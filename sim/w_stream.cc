#include "w_stream.h"
#include <memory>
namespace w {
static std::vector<std::unique_ptr<Peer>> peers;
static std::vector<std::unique_ptr<Dir>> dirs;
const char *const read_name[5] = { "read", "readv", "recv", "recvfrom", "recvmsg" };
const char *const write_name[5] = { "write", "writev", "send", "sendto", "sendmsg" };
const char *ename (int e) { const char *s = strerrorname_np (e); return s ? s : "?"; }

void Dir::verify (const char *b, size_t n, uint64_t o, const char *who) const
{
    for (size_t i = 0; i < n; i++)
        if ((uint8_t)b[i] != at (o + i)) {
            // where does it come from?
            long src = -1;
            size_t m = n - i < 6 ? n - i : 6;
            for (uint64_t s = 0; s < total + 8 && m >= 3; s++) {
                size_t k = 0;
                while (k < m && (uint8_t)b[i + k] == at (s + k)) k++;
                if (k == m) { src = s; break; }
            }
            fail ("content", "%s: %s got a wrong byte at stream offset %lu (%s)", name, who, (unsigned long)(o + i),
                  src < 0 ? "not a byte of this stream" : (uint64_t)src > o + i ? "bytes are missing" : "bytes are repeated");
        }
}
Dir *dir_new (const char *name, uint64_t total)
{
    if (dirs.empty ())
        at_cleanup ([] { dirs.clear (); });
    dirs.emplace_back (new Dir ());
    Dir *d = dirs.back ().get ();
    d->name = name;
    d->total = total;
    d->salt = dirs.size () * 1000003ull;
    return d;
}
Peer *peer_new (FileP e, Dir *out, Dir *in)
{
    if (peers.empty ())
        at_cleanup ([] { peers.clear (); });
    peers.emplace_back (new Peer ());
    Peer *p = peers.back ().get ();
    p->e = e;
    p->out = out;
    p->in = in;
    return p;
}
void peer_random (Peer *p, bool faults)
{
    static const uint32_t ck[] = { 64, 1, 5, 17, 300 };
    p->speed = choose (4);
    p->chunk = pick (ck);
    if (faults && choose (3) == 2) {
        p->kill = 1 + choose (2);
        p->kill_in = choose (12);
    }
}
static uint64_t delay (Peer *p)
{
    switch (p->speed) {
    case 0: return 0;
    case 1: return noise () % 100000;
    case 2: return noise () % 10000000;
    default:
        if (noise () % 8 == 0) {
            fault (F_PEER_STALL);
            return noise () % 5000000000ull;
        }
        return noise () % 300000;
    }
}
static void step_peer (Peer *p);
static bool can_act (Peer *p)
{
    if (p->closed)
        return false;
    if (p->e->tx && p->e->tx->dead)
        return false;
    if (p->out && !p->out_done && (p->out->sent < p->out->total ? p->e->tx->room () > 0 : !p->keep_open))
        return true;
    if (p->in && !p->in_done && !p->deaf && (p->e->rx->q.size () || ext_eof (p->e)))
        return true;
    return false;
}
static void kick (Peer *p)
{
    if (p->sched || p->closed)
        return;
    p->sched = true;
    after (delay (p), [p] { p->sched = false; step_peer (p); });
}
static void finish_out (Peer *p)
{
    p->out_done = true;
    p->out->ended = true;
    TR ("%s: peer ends the stream after %lu bytes", p->out->name, (unsigned long)p->out->sent);
    if (p->in)
        fault (F_HALF_CLOSE);
    ext_shut_write (p->e);
}
void peer_end (Peer *p)
{
    p->keep_open = false;
    kick (p);
}
void peer_listen (Peer *p)
{
    p->deaf = false;
    kick (p);
}
static void step_peer (Peer *p)
{
    if (p->closed)
        return;
    step ();
    if (p->kill && p->kill_in-- <= 0) {
        p->closed = true;
        if (p->kill == 1) {
            TR ("peer resets the connection (%s %s)", p->out ? p->out->name : "", p->in ? p->in->name : "");
            if (p->out) p->out->broken = true;
            if (p->in) p->in->broken = true;
            ext_reset (p->e);
        } else {
            TR ("peer closes the connection (%s %s)", p->out ? p->out->name : "", p->in ? p->in->name : "");
            if (p->out) { p->out->ended = true; p->out->total = p->out->sent; }
            if (p->in) p->in->broken = true;
            ext_close (p->e);
        }
        return;
    }
    bool w = p->out && !p->out_done, r = p->in && !p->in_done && !p->deaf;
    if (w && r && (noise () & 1))
        w = p->e->rx->q.empty ();
    if (w) {
        uint64_t left = p->out->total - p->out->sent;
        if (left) {
            size_t n = std::min<uint64_t> (left, 1 + noise () % p->chunk);
            std::string s = p->out->text (p->out->sent, n);
            size_t k = ext_write (p->e, s.data (), n);
            if (k)
                TR ("%s: peer sends %zu bytes at %lu", p->out->name, k, (unsigned long)p->out->sent);
            p->out->sent += k;
            left -= k;
        }
        if (!left && !p->keep_open)
            finish_out (p);
    }
    if (r) {
        std::string s = ext_read (p->e, 1 + noise () % p->chunk);
        if (s.size ()) {
            TR ("%s: peer takes %zu bytes at %lu", p->in->name, s.size (), (unsigned long)p->in->got);
            p->in->take (s.data (), s.size (), "the far end");
        }
        if (ext_eof (p->e))
            p->in_done = true;
    }
    if ((!p->out || p->out_done) && (!p->in || p->in_done)) {
        p->closed = true;
        ext_close (p->e);
        return;
    }
    if (can_act (p))
        kick (p);
}
void peer_go (Peer *p)
{
    if (p->in)
        p->e->rx->on_r = [p] { kick (p); };
    if (p->out)
        p->e->tx->on_w = [p] { kick (p); };
    kick (p);
}

ssize_t read_op (int op, int fd, char *b, size_t n, int flags, HevTaskIOYielder y, void *yd)
{
    ssize_t r;
    Task *me = self ();
    const char *old = me ? me->what : "";
    if (me) me->what = read_name[op];
    if (op == 1 || op == 4) {
        Vec v (n);
        if (op == 1)
            r = hev_task_io_readv (fd, v.v.data (), v.v.size (), y, yd);
        else {
            struct msghdr m;
            memset (&m, 0, sizeof m);
            m.msg_iov = v.v.data ();
            m.msg_iovlen = v.v.size ();
            r = hev_task_io_socket_recvmsg (fd, &m, flags, y, yd);
        }
        int e = errno;
        v.check (read_name[op]);
        v.get (b);
        errno = e;
    } else {
        std::string g (n + 16, (char)0xc5);
        char *p = &g[8];
        switch (op) {
        case 0: r = hev_task_io_read (fd, p, n, y, yd); break;
        case 2: r = hev_task_io_socket_recv (fd, p, n, flags, y, yd); break;
        default: r = hev_task_io_socket_recvfrom (fd, p, n, flags, NULL, NULL, y, yd); break;
        }
        int e = errno;
        for (int i = 0; i < 8; i++)
            CHECK ((uint8_t)g[i] == 0xc5 && (uint8_t)g[g.size () - 1 - i] == 0xc5, "memory", "%s wrote outside the given buffer", read_name[op]);
        memcpy (b, p, n);
        errno = e;
    }
    if (me) me->what = old;
    turn_no++;
    return r;
}
ssize_t write_op (int op, int fd, const char *b, size_t n, int flags, HevTaskIOYielder y, void *yd)
{
    ssize_t r;
    Task *me = self ();
    const char *old = me ? me->what : "";
    if (me) me->what = write_name[op];
    if (op == 1 || op == 4) {
        Vec v (n);
        v.put (b);
        if (op == 1)
            r = hev_task_io_writev (fd, v.v.data (), v.v.size (), y, yd);
        else {
            struct msghdr m;
            memset (&m, 0, sizeof m);
            m.msg_iov = v.v.data ();
            m.msg_iovlen = v.v.size ();
            r = hev_task_io_socket_sendmsg (fd, &m, flags, y, yd);
        }
        int e = errno;
        v.check (write_name[op]);
        errno = e;
    } else {
        switch (op) {
        case 0: r = hev_task_io_write (fd, b, n, y, yd); break;
        case 2: r = hev_task_io_socket_send (fd, b, n, flags, y, yd); break;
        default: r = hev_task_io_socket_sendto (fd, b, n, flags, NULL, 0, y, yd); break;
        }
    }
    if (me) me->what = old;
    turn_no++;
    return r;
}
}
