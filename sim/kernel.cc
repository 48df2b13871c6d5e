// Simulated kernel: descriptors, streams, datagrams, epoll, timers, files.
#include "kernel.h"
#include <algorithm>
#include <cerrno>
#include <cstring>
#include <fcntl.h>
#include <netinet/in.h>
#include <sys/un.h>
#include <sys/ioctl.h>
#include <sys/timerfd.h>

namespace sim {

Net N;
Resolver D;
SysLog S;
std::function<void (const char *, int, long)> on_sys;
std::function<void (int, uint32_t)> on_event;
bool allow_blocking;
std::map<std::string, std::shared_ptr<std::string>> fs;
static std::vector<FileP> fdt;
static std::map<int, uint64_t> closes;
static std::map<std::string, std::weak_ptr<File>> listeners, dgram_bound;
static std::vector<FileP> keep;         // external ends
static uint64_t file_ids;
static int64_t rt_off;
static uint32_t empty_polls, eintr_row;
static uint16_t next_port;
uint64_t longest_tick;

File::~File ()
{
    if (rx && rx->r == this) rx->r = nullptr;
    if (tx && tx->w == this) tx->w = nullptr;
    for (auto it : items) {
        if (it->f) {
            auto &w = it->f->watch;
            w.erase (std::remove (w.begin (), w.end (), it), w.end ());
        }
        delete it;
    }
}
static FileP mkfile (FType t)
{
    FileP f = std::make_shared<File> ();
    f->type = t;
    f->id = ++file_ids;
    return f;
}
void kernel_reset ()
{
    on_sys = nullptr;
    on_event = nullptr;
    allow_blocking = false;
    for (auto &f : fdt)
        if (f) {
            // break reference cycles
            f->aq.clear ();
            f->mq.clear ();
            f->scm.clear ();
        }
    // epolls first, so that their items go before the watched files
    for (auto &f : fdt)
        if (f && f->type == T_EPOLL)
            f.reset ();
    fdt.clear ();
    keep.clear ();
    listeners.clear ();
    dgram_bound.clear ();
    closes.clear ();
    fs.clear ();
    N = Net ();
    D = Resolver ();
    S = SysLog ();
    file_ids = 0;
    rt_off = 1700000000000000000ll;
    empty_polls = eintr_row = 0;
    next_port = 40000;
    longest_tick = 0;
    // 0,1,2 are taken
    for (int i = 0; i < 3; i++) {
        FileP f = mkfile (T_REG);
        f->data = std::make_shared<std::string> ();
        f->nfd = 1;
        fdt.push_back (f);
    }
}
FileP file (int fd)
{
    if (fd < 0 || (size_t)fd >= fdt.size ())
        return nullptr;
    return fdt[fd];
}
int fd_new (FileP f, int flags)
{
    size_t i;
    for (i = 0; i < fdt.size (); i++)
        if (!fdt[i])
            break;
    if (i == fdt.size ())
        fdt.push_back (nullptr);
    fdt[i] = f;
    f->nfd++;
    f->flags |= flags;
    return (int)i;
}
size_t open_fds ()
{
    size_t n = 0;
    for (size_t i = 3; i < fdt.size (); i++)
        n += !!fdt[i];
    return n;
}
std::string open_fds_detail ()
{
    static const char *tn[] = { "pipe-r", "pipe-w", "stream", "dgram", "listener", "file", "timerfd", "epoll", "eventfd" };
    std::string s;
    char b[64];
    for (size_t i = 3; i < fdt.size (); i++)
        if (fdt[i]) {
            snprintf (b, sizeof b, " fd#%zu(%s)", i, tn[fdt[i]->type]);
            s += b;
        }
    return s;
}
uint64_t closes_of (int fd) { return closes[fd]; }

// ------------------------------------------------------------ readiness
size_t Chan::room () const
{
    if (full_until > now ())
        return 0;
    if (slots && chunks.size () >= slots)
        return 0;
    size_t u = used ();
    return u >= cap ? 0 : cap - u;
}
bool Chan::writable () const
{
    size_t r = room ();
    return r && r >= std::min (low, cap);
}
short poll_mask (File *f)
{
    short m = 0;
    switch (f->type) {
    case T_PIPE_R:
        if (f->rx->q.size ()) m |= POLLIN | POLLRDNORM;
        if (f->rx->fin) m |= POLLHUP;
        break;
    case T_PIPE_W:
        if (f->tx->rshut) m |= POLLERR | POLLOUT | POLLWRNORM;
        else if (f->tx->writable ()) m |= POLLOUT | POLLWRNORM;
        break;
    case T_STREAM:
        if (f->cstate == 0) { m |= POLLOUT | POLLHUP | POLLWRNORM; break; }
        if (f->cstate == 1) break;
        if (f->err) m |= POLLERR;
        if (f->cstate == 4) { m |= POLLIN | POLLOUT | POLLHUP; break; }
        if (f->rx->q.size () || f->rx->fin || f->rx->rshut || f->rx->dead) m |= POLLIN | POLLRDNORM;
        if (f->rx->fin || f->rx->rshut || f->rx->dead) m |= POLLRDHUP;
        if ((f->rx->fin || f->rx->dead || f->rx->rshut) && (f->tx->wshut || f->tx->dead)) m |= POLLHUP;
        if (f->tx->rshut || f->tx->dead || f->tx->wshut) m |= POLLOUT | POLLWRNORM;
        else if (f->tx->writable ()) m |= POLLOUT | POLLWRNORM;
        break;
    case T_DGRAM: {
        if (f->err) m |= POLLERR;
        if (f->mq.size ()) m |= POLLIN | POLLRDNORM;
        FileP p = f->dpeer.lock ();
        if (!f->dnospace && (!p || p->mq.size () < p->mcap)) m |= POLLOUT | POLLWRNORM;
        break; }
    case T_LISTEN:
        if (f->aq.size ()) m |= POLLIN | POLLRDNORM;
        break;
    case T_REG:
        m = POLLIN | POLLOUT | POLLRDNORM | POLLWRNORM;
        break;
    case T_TIMER:
        if (f->ticks) m |= POLLIN | POLLRDNORM;
        break;
    case T_EPOLL:
        for (auto it : f->ready)
            if (poll_mask (it->f) & (short)(it->events | POLLERR | POLLHUP)) { m |= POLLIN; break; }
        break;
    case T_EVENT:
        if (f->ticks) m |= POLLIN;
        m |= POLLOUT;
        break;
    }
    return m;
}
static void ep_queue (EpItem *it)
{
    if (it->queued || it->off)
        return;
    it->queued = true;
    it->ep->ready.push_back (it);
}
void notify (File *f, short mask)
{
    if (!f)
        return;
    for (auto it : f->watch)
        if (mask & (short)(it->events | POLLERR | POLLHUP))
            ep_queue (it);
    // nested epoll
    for (auto it : f->watch)
        if (it->queued && it->ep->watch.size ())
            notify (it->ep, POLLIN);
}
static void ext_notify (std::function<void ()> &cb)
{
    if (cb)
        at (now (), cb);
}

// ------------------------------------------------------------ streams
static void chan_arrive (Chan *c)
{
    bool data = false, fin = false;
    while (!c->fly.empty () && c->fly.front ().t <= now ()) {
        Chan::Seg &s = c->fly.front ();
        if (!c->dead && !c->rshut)
            c->q += s.d;
        c->flyb -= s.d.size ();
        data |= !s.d.empty ();
        fin |= s.fin;
        c->fly.pop_front ();
    }
    if (c->dead)
        return;
    if (fin)
        c->fin = true;
    if (data || fin) {
        notify (c->r, POLLIN | POLLRDNORM | (fin ? POLLRDHUP | POLLHUP : 0));
        ext_notify (c->on_r);
    }
}
static uint64_t net_delay ()
{
    uint64_t d;
    switch (choose (4)) {
    case 0: return 0;
    case 1: d = noise () % 100000; break;
    case 2: d = noise () % 5000000; break;
    default: d = noise () % 300000000; break;
    }
    fault (F_NET_DELAY);
    return d;
}
static void chan_push (ChanP c, const char *p, size_t n)
{
    c->in += n;
    c->log_in.append (p, n);
    if (c->rshut || c->dead)
        return;
    if (!c->net) {
        c->q.append (p, n);
        notify (c->r, POLLIN | POLLRDNORM);
        ext_notify (c->on_r);
        return;
    }
    uint32_t parts = 1 + (n > 1 ? choose (3) : 0);
    size_t o = 0;
    for (uint32_t i = 0; i < parts && o < n; i++) {
        size_t k = i + 1 == parts ? n - o : 1 + noise () % (n - o);
        uint64_t t = now () + net_delay ();
        if (!c->fly.empty () && c->fly.back ().t > t)
            t = c->fly.back ().t;
        c->fly.push_back (Chan::Seg{ t, std::string (p + o, k), false });
        c->flyb += k;
        o += k;
        at (t, [c] { chan_arrive (c.get ()); });
    }
    chan_arrive (c.get ());
}
static void chan_fin (ChanP c)
{
    if (c->wshut)
        return;
    c->wshut = true;
    if (!c->net) {
        c->fin = true;
        notify (c->r, POLLIN | POLLRDNORM | POLLRDHUP | POLLHUP);
        ext_notify (c->on_r);
        return;
    }
    uint64_t t = now () + net_delay ();
    if (!c->fly.empty () && c->fly.back ().t > t)
        t = c->fly.back ().t;
    c->fly.push_back (Chan::Seg{ t, std::string (), true });
    at (t, [c] { chan_arrive (c.get ()); });
    chan_arrive (c.get ());
}
static void chan_rshut (ChanP c)
{
    if (c->rshut)
        return;
    c->rshut = true;
    notify (c->w, POLLOUT | POLLWRNORM | POLLERR | POLLHUP);
    ext_notify (c->on_w);
}
// returns bytes accepted, 0: would block
static size_t chan_write (ChanP c, const char *p, size_t n, bool inject)
{
    size_t r = c->room (), k = std::min (n, r);
    if (!k) {
        c->nospace = true;
        return 0;
    }
    if (inject && k > 1 && M.shortw && chance (M.shortw, 256)) {
        k = 1 + choose (k - 1);
        uint64_t d = 1000 + noise () % 2000000;
        fault (F_SHORT_WRITE);
        c->full_until = now () + d;
        at (c->full_until, [c] {
            if (c->full_until <= now () && c->writable ()) {
                c->nospace = false;
                notify (c->w, POLLOUT | POLLWRNORM);
                ext_notify (c->on_w);
            }
        });
    }
    if (k < n)
        c->nospace = true;
    if (c->slots)
        c->chunks.push_back (k);
    chan_push (c, p, k);
    return k;
}
static size_t chan_take (ChanP c, char *p, size_t n, bool peek)
{
    size_t k = std::min (n, c->q.size ());
    memcpy (p, c->q.data (), k);
    if (peek || !k)
        return k;
    bool was = c->writable ();
    c->log_out.append (c->q, 0, k);
    c->out += k;
    c->q.erase (0, k);
    size_t left = k;
    while (left && !c->chunks.empty ()) {
        size_t x = std::min (left, c->chunks.front ());
        c->chunks.front () -= x;
        left -= x;
        if (!c->chunks.front ())
            c->chunks.pop_front ();
    }
    if (c->writable () && (!was || c->nospace)) {
        c->nospace = false;
        notify (c->w, POLLOUT | POLLWRNORM);
        ext_notify (c->on_w);
    } else if (c->writable () && (noise () & 3) == 0) {
        notify (c->w, POLLOUT | POLLWRNORM);
    }
    return k;
}
static void make_pair (FileP a, FileP b, const StreamOpt &o)
{
    ChanP ab = std::make_shared<Chan> (), ba = std::make_shared<Chan> ();
    ab->cap = o.cap_ab;
    ba->cap = o.cap_ba;
    ab->low = ba->low = o.low;
    ab->net = ba->net = o.net;
    a->tx = ab; b->rx = ab; ab->w = a.get (); ab->r = b.get ();
    b->tx = ba; a->rx = ba; ba->w = b.get (); ba->r = a.get ();
    a->cstate = b->cstate = 3;
    a->stype = b->stype = SOCK_STREAM;
}
void random_stream_opt (StreamOpt &o)
{
    static const size_t caps[] = { 65536, 1, 3, 7, 16, 33, 64, 200, 1024, 4096 };
    o.cap_ab = caps[choose (10)];
    o.cap_ba = caps[choose (10)];
    o.low = 1 + choose (4) * choose (5);
    o.net = choose (2);
}
FileP ext_stream (int *fd, const StreamOpt &o, bool nonblock)
{
    FileP a = mkfile (T_STREAM), b = mkfile (T_STREAM);
    make_pair (a, b, o);
    b->ext = true;
    keep.push_back (b);
    *fd = fd_new (a, nonblock ? O_NONBLOCK : 0);
    return b;
}
size_t ext_write (FileP e, const void *p, size_t n)
{
    if (e->tx->wshut || e->tx->dead)
        return 0;
    return chan_write (e->tx, (const char *)p, n, false);
}
std::string ext_read (FileP e, size_t max)
{
    std::string s (std::min (max, e->rx->q.size ()), 0);
    if (s.size ())
        chan_take (e->rx, &s[0], s.size (), false);
    return s;
}
bool ext_eof (FileP e) { return e->rx->q.empty () && (e->rx->fin || e->rx->dead); }
void ext_shut_write (FileP e) { if (e->tx) chan_fin (e->tx); }
static void stream_close (FileP f)
{
    if (f->tx)
        chan_fin (f->tx);
    if (f->rx)
        chan_rshut (f->rx);
    if (f->rx && f->type == T_STREAM)
        f->rx->q.clear ();
}
void ext_close (FileP e)
{
    stream_close (e);
}
static void stream_reset (FileP e)
{
    // both directions die; the other side learns ECONNRESET
    File *o = e->tx ? e->tx->r : nullptr;
    for (ChanP c : { e->tx, e->rx })
        if (c) {
            c->dead = true;
            c->fly.clear ();
            c->flyb = 0;
        }
    if (o && o->type == T_STREAM && !o->ext) {
        o->err = ECONNRESET;
        o->was_reset = true;
        notify (o, POLLIN | POLLOUT | POLLERR | POLLHUP | POLLRDHUP);
    }
    if (o && o->ext) {
        ext_notify (o->rx->on_r);
        ext_notify (o->tx->on_w);
    }
}
void ext_reset (FileP e)
{
    fault (F_RESET);
    stream_reset (e);
}
FileP ext_pipe_in (int *fd, size_t cap)
{
    FileP r = mkfile (T_PIPE_R), w = mkfile (T_PIPE_W);
    ChanP c = std::make_shared<Chan> ();
    c->cap = cap;
    r->rx = c; w->tx = c; c->r = r.get (); c->w = w.get ();
    w->ext = true;
    keep.push_back (w);
    *fd = fd_new (r, O_NONBLOCK);
    return w;
}
FileP ext_pipe_out (int *fd, size_t cap)
{
    FileP r = mkfile (T_PIPE_R), w = mkfile (T_PIPE_W);
    ChanP c = std::make_shared<Chan> ();
    c->cap = cap;
    r->rx = c; w->tx = c; c->r = r.get (); c->w = w.get ();
    r->ext = true;
    keep.push_back (r);
    *fd = fd_new (w, O_NONBLOCK);
    return r;
}

// ------------------------------------------------------------ inet
std::string make_addr (uint32_t ip, uint16_t port)
{
    struct sockaddr_in a;
    memset (&a, 0, sizeof a);
    a.sin_family = AF_INET;
    a.sin_port = htons (port);
    a.sin_addr.s_addr = htonl (ip);
    return std::string ((char *)&a, sizeof a);
}
std::string make_addr6 (uint8_t host, uint16_t port)
{
    struct sockaddr_in6 a;
    memset (&a, 0, sizeof a);
    a.sin6_family = AF_INET6;
    a.sin6_port = htons (port);
    a.sin6_addr.s6_addr[0] = 0xfd;
    a.sin6_addr.s6_addr[15] = host;
    a.sin6_flowinfo = htonl (host * 77);
    a.sin6_scope_id = 9;
    return std::string ((char *)&a, sizeof a);
}
std::string make_addr_unix (const std::string &path)
{
    struct sockaddr_un a;
    memset (&a, 0, sizeof a);
    a.sun_family = AF_UNIX;
    memcpy (a.sun_path, path.data (), path.size ());
    return std::string ((char *)&a, offsetof (struct sockaddr_un, sun_path) + path.size () + 1);
}
// the name of a local socket ends with its first zero byte
static std::string unix_trim (const std::string &a)
{
    const size_t o = offsetof (struct sockaddr_un, sun_path);
    if (a.size () <= o || ((struct sockaddr *)a.data ())->sa_family != AF_UNIX || !a[o])
        return a;
    return a.substr (0, o + strnlen (a.data () + o, a.size () - o)) + std::string (1, 0);
}
// what the kernel says to an address of this length and family
static int addr_bad (int domain, const struct sockaddr *a, size_t l)
{
    size_t min = domain == AF_INET ? sizeof (struct sockaddr_in) : domain == AF_INET6 ? 24 : 3;
    if (l < min || l > (domain == AF_UNIX ? sizeof (struct sockaddr_un) : sizeof (struct sockaddr_storage)))
        return EINVAL;
    if (a->sa_family != domain)
        return domain == AF_UNIX ? EINVAL : EAFNOSUPPORT;
    return 0;
}
// ports identify listeners and bound sockets whatever the address
static std::string addr_key (const std::string &a)
{
    if (a.size () >= sizeof (struct sockaddr_in) && ((struct sockaddr *)a.data ())->sa_family == AF_INET)
        return "p" + std::to_string (ntohs (((struct sockaddr_in *)a.data ())->sin_port));
    if (a.size () >= sizeof (struct sockaddr_in6) && ((struct sockaddr *)a.data ())->sa_family == AF_INET6)
        return "p" + std::to_string (ntohs (((struct sockaddr_in6 *)a.data ())->sin6_port));
    return "u" + unix_trim (a);
}
FileP listener_at (const std::string &addr)
{
    auto it = listeners.find (addr_key (addr));
    if (it == listeners.end ())
        return nullptr;
    FileP l = it->second.lock ();
    if (l && l->nfd == 0)
        return nullptr;
    return l;
}
static StreamOpt net_opt ()
{
    StreamOpt o;
    o.cap_ab = o.cap_ba = N.sock_cap;
    if (N.random_caps)
        random_stream_opt (o);
    else
        o.net = true;
    return o;
}
static void establish (FileP cli, const std::string &addr, size_t ci)
{
    FileP l = listener_at (addr);
    FileP srv = mkfile (T_STREAM);
    make_pair (cli, srv, net_opt ());
    srv->domain = cli->domain;
    srv->peer = cli->local;
    srv->local = addr;
    srv->conn = cli->conn;
    N.conns[ci].outcome = 1;
    N.conns[ci].srv = srv;
    cli->cstate = 2;
    l->aq.push_back (srv);
    notify (l.get (), POLLIN | POLLRDNORM);
    notify (cli.get (), POLLOUT | POLLWRNORM);
    ext_notify (cli->tx->on_w);
}
static int start_connect (FileP f, const std::string &addr)
{
    bool unix_ = f->domain == AF_UNIX;
    if (f->local.empty ())
        f->local = unix_ ? std::string ("\1\0", 2) : f->domain == AF_INET6 ? make_addr6 (1, next_port++) : make_addr (0x7f000001, next_port++);
    f->peer = addr;
    f->conn = ++N.conn_count;
    N.conns.push_back (Net::Conn{ f->conn, 0, false, false, f->local, addr, nullptr });
    size_t ci = N.conns.size () - 1;
    FileP l = listener_at (addr);
    if (unix_) {
        if (!l) {
            N.conns[ci].outcome = 2;
            return ECONNREFUSED;
        }
        establish (f, addr, ci);
        f->cstate = 3;
        return 0;
    }
    f->cstate = 1;
    int kind = 1; // ok
    if (!l) kind = 2;
    else if (N.refuse && chance (N.refuse, 256)) { kind = 2; fault (F_CONN_REFUSED); }
    else if (N.tmo && chance (N.tmo, 256)) { kind = 3; fault (F_CONN_TIMEOUT); }
    static const int unreach[] = { EHOSTUNREACH, ENETUNREACH, ECONNRESET };
    int err = 0;
    if (kind == 3 && choose (2)) {
        kind = 4;
        err = unreach[choose (3)];
    }
    uint64_t d = kind == 3 ? 127000000000ull : net_delay ();
    std::weak_ptr<File> wf = f;
    auto done = [wf, addr, ci, kind, err] {
        FileP f = wf.lock ();
        if (!f || f->cstate != 1 || (f->nfd == 0 && !f->ext)) {
            N.conns[ci].client_gone = true;
            return;
        }
        int k = kind;
        if (k == 1 && !listener_at (addr))
            k = 2;
        if (k == 1) {
            establish (f, addr, ci);
            return;
        }
        N.conns[ci].outcome = k;
        f->cstate = 4;
        f->err = N.conns[ci].err = k == 2 ? ECONNREFUSED : k == 3 ? ETIMEDOUT : err;
        notify (f.get (), POLLIN | POLLOUT | POLLERR | POLLHUP);
    };
    if (d == 0 && choose (2)) {
        // completes before the call returns
        done ();
        if (f->cstate == 2) {
            f->cstate = 3;
            return 0;
        }
        f->cstate = 0;
        int e = f->err;
        f->err = 0;
        return e;
    }
    at (now () + d, done);
    return EINPROGRESS;
}
FileP ext_connect (const std::string &addr, uint64_t *id)
{
    FileP c = mkfile (T_STREAM);
    c->ext = true;
    c->domain = ((const struct sockaddr *)addr.data ())->sa_family;
    keep.push_back (c);
    int r = start_connect (c, addr);
    (void)r;
    *id = c->conn;
    return c;
}
static void dgram_deliver (const std::string &to, const Msg &m)
{
    auto it = dgram_bound.find (addr_key (to));
    if (it == dgram_bound.end ())
        return;
    FileP d = it->second.lock ();
    if (!d || d->nfd == 0)
        return;
    if (d->mq.size () >= d->mcap) {
        R.faults[F_NET_LOSS]++;
        return;
    }
    d->mq.push_back (m);
    N.queued[m.id]++;
    notify (d.get (), POLLIN | POLLRDNORM);
}
void ext_dgram (const std::string &to, const std::string &from, const std::string &d)
{
    Msg m;
    m.d = d;
    m.from = from;
    m.id = N.sent.size () + 1;
    N.sent.push_back (Net::Sent{ m.id, d, from, to, 1 });
    dgram_deliver (to, m);
}

// ------------------------------------------------------------ descriptors
static void file_unref (FileP f)
{
    if (--f->nfd)
        return;
    for (auto it : f->watch) {
        File *ep = it->ep;
        ep->items.remove (it);
        auto &q = ep->ready;
        q.erase (std::remove (q.begin (), q.end (), it), q.end ());
        delete it;
    }
    f->watch.clear ();
    switch (f->type) {
    case T_PIPE_R: case T_PIPE_W: case T_STREAM:
        if (f->cstate == 1)
            f->cstate = 0;
        stream_close (f);
        break;
    case T_DGRAM: {
        FileP p = f->dpeer.lock ();
        if (p)
            notify (p.get (), POLLIN | POLLOUT | POLLERR);
        f->mq.clear ();
        break; }
    case T_LISTEN:
        for (auto &s : f->aq) {
            stream_reset (s);
        }
        f->aq.clear ();
        break;
    case T_TIMER:
        f->gen++;
        break;
    case T_EPOLL:
        for (auto it : f->items) {
            auto &w = it->f->watch;
            w.erase (std::remove (w.begin (), w.end (), it), w.end ());
            delete it;
        }
        f->items.clear ();
        f->ready.clear ();
        break;
    default:
        break;
    }
}

// ------------------------------------------------------------ common prelude
static void tick ()
{
    uint64_t t0 = R.now;
    switch (M.tick) {
    case 0: break;
    case 1: advance (100); break;
    case 2: advance (1000); break;
    case 3: advance (noise () % 20000); break;
    default: advance (noise () % 2000000); break;
    }
    if (M.stall && (noise () & 1023) < M.stall) {
        fault (F_CLOCK_STALL);
        advance (noise () % 3000000000ull);
    }
    if (R.now - t0 > longest_tick)
        longest_tick = R.now - t0;
}
static void enter (const char *name, int fd = -1)
{
    (void)name; (void)fd;
    step ();
    S.n++;
    tick ();
    run_due_events ();
    thread_point ();
}
static long leave (const char *name, int fd, long r, int e)
{
    mix ((uint64_t)(uint8_t)name[0] << 8 | (uint8_t)name[1], ((uint64_t)fd << 32) ^ (uint64_t)r ^ ((uint64_t)e << 16));
    if (r < 0)
        errno = e;
    else if (M.clobber) {
        static const int junk[] = { EAGAIN, EINTR, EINPROGRESS, EBADF, EISCONN };
        errno = junk[noise () % 5];
        R.faults[F_ERRNO_CLOBBER]++;
    }
    if (tracing && strcmp (name, "clock_gettime")) {
        if (r < 0) trace ("  sys %s(fd %d) = -1 (%s)", name, fd, strerrorname_np (e) ? strerrorname_np (e) : "?");
        else trace ("  sys %s(fd %d) = %ld", name, fd, r);
    }
    if (on_sys)
        on_sys (name, fd, r);
    return r;
}
static bool refused (Fault k)
{
    int64_t i = R.syscalls_fallible++;
    bool f = false;
    if (R.immune)
        return false;
    if (M.sys_fail_at >= 0 && i >= M.sys_fail_at && i < M.sys_fail_at + (int64_t)M.sys_fail_n)
        f = true;
    else if (M.sys_fail_rate && chance (M.sys_fail_rate, 256))
        f = true;
    if (f)
        fault (k);
    return f;
}
static void would_block (const char *name, int fd)
{
    fail ("blocked", "the whole thread would block inside %s on descriptor %d, which is not non-blocking", name, fd);
}

static bool scripted (File *f, int *e)
{
    if (f->fail_after < 0)
        return false;
    if (f->fail_after > 0) {
        f->fail_after--;
        return false;
    }
    f->fail_after = -1;
    *e = f->fail_err;
    fault (F_IO_ERROR);
    return true;
}

// scatter/gather helpers
static size_t iov_len (const struct iovec *v, int n)
{
    size_t t = 0;
    for (int i = 0; i < n; i++)
        t += v[i].iov_len;
    return t;
}
static size_t iov_put (const struct iovec *v, int n, const char *p, size_t len, const char *what)
{
    size_t o = 0;
    for (int i = 0; i < n && o < len; i++) {
        size_t k = std::min (v[i].iov_len, len - o);
        check_mem (v[i].iov_base, k, what);
        memcpy (v[i].iov_base, p + o, k);
        o += k;
    }
    return o;
}
static std::string iov_get (const struct iovec *v, int n, size_t max, const char *what)
{
    std::string s;
    for (int i = 0; i < n && s.size () < max; i++) {
        size_t k = std::min (v[i].iov_len, max - s.size ());
        check_mem (v[i].iov_base, k, what);
        s.append ((const char *)v[i].iov_base, k);
    }
    return s;
}

// core read/write on a file; result <0 is -errno
static long do_read (File *f, const struct iovec *v, int n, bool peek, bool dontwait, const char *name, int fd)
{
    size_t len = iov_len (v, n);
    int e;
    if (scripted (f, &e))
        return -e;
    switch (f->type) {
    case T_PIPE_R: case T_STREAM: {
        if (f->type == T_STREAM && f->cstate < 2)
            return f->cstate == 1 ? -EAGAIN : -ENOTCONN;
        if (f->type == T_STREAM && f->cstate == 4) {
            if (f->err) { e = f->err; f->err = 0; return -e; }
            return 0;
        }
        if (!len)
            return 0;
        if (f->rx->q.size ()) {
            std::string tmp (std::min (len, f->rx->q.size ()), 0);
            size_t k = chan_take (f->rx, &tmp[0], tmp.size (), peek);
            iov_put (v, n, tmp.data (), k, name);
            return k;
        }
        if (f->err) { e = f->err; f->err = 0; return -e; }
        if (f->rx->fin || f->rx->rshut || f->rx->dead)
            return 0;
        if (!(f->flags & O_NONBLOCK) && !dontwait) {
            if (!allow_blocking && !thread_helper ())
                would_block (name, fd);
            thread_block ([f] { return f->rx->q.size () || f->rx->fin || f->err || f->rx->dead; });
            return do_read (f, v, n, peek, dontwait, name, fd);
        }
        return -EAGAIN; }
    case T_REG: {
        if (f->off >= f->data->size ())
            return 0;
        size_t k = std::min (len, f->data->size () - f->off);
        iov_put (v, n, f->data->data () + f->off, k, name);
        if (!peek)
            f->off += k;
        return k; }
    case T_TIMER: case T_EVENT:
        if (!f->ticks) {
            if (f->flags & O_NONBLOCK)
                return -EAGAIN;
            if (!allow_blocking && !thread_helper ())
                would_block (name, fd);
            thread_block ([f] { return f->ticks; });
        }
        if (len < 8)
            return -EINVAL;
        iov_put (v, n, (char *)&f->ticks, 8, name);
        f->ticks = 0;
        return 8;
    default:
        return -EINVAL;
    }
}
static long do_write (File *f, const struct iovec *v, int n, int flags, const char *name, int fd)
{
    size_t len = iov_len (v, n);
    int e;
    if (scripted (f, &e))
        return -e;
    switch (f->type) {
    case T_PIPE_W: case T_STREAM: {
        if (f->type == T_STREAM && f->cstate < 2)
            return f->cstate == 1 ? -EAGAIN : -ENOTCONN;
        if (f->err) { e = f->err; f->err = 0; return -e; }
        if (f->cstate == 4 || f->tx->rshut || f->tx->dead || f->tx->wshut) {
            f->sigpipe += !(flags & MSG_NOSIGNAL);
            return -EPIPE;
        }
        if (!len)
            return 0;
        std::string d = iov_get (v, n, std::min (len, f->tx->room () + 1), name);
        size_t k = f->tx->room () ? chan_write (f->tx, d.data (), std::min (d.size (), f->tx->room ()), true)
                                  : (f->tx->nospace = true, 0);
        if (k < len)
            f->tx->nospace = true;
        if (k)
            return k;
        if (!(f->flags & O_NONBLOCK) && !(flags & MSG_DONTWAIT)) {
            if (!allow_blocking && !thread_helper ())
                would_block (name, fd);
            thread_block ([f] { return f->tx->room () || f->tx->rshut || f->err || f->tx->dead; });
            return do_write (f, v, n, flags, name, fd);
        }
        return -EAGAIN; }
    case T_REG: {
        std::string d = iov_get (v, n, len, name);
        if (f->flags & O_APPEND)
            f->off = f->data->size ();
        if (M.shortw && d.size () > 1 && chance (M.shortw, 256)) {
            d.resize (1 + choose (d.size () - 1));
            fault (F_SHORT_WRITE);
        }
        if (f->data->size () < f->off)
            f->data->resize (f->off);
        f->data->replace (f->off, d.size (), d);
        f->off += d.size ();
        return d.size (); }
    case T_EVENT: {
        uint64_t x = 0;
        std::string d = iov_get (v, n, 8, name);
        memcpy (&x, d.data (), std::min<size_t> (8, d.size ()));
        f->ticks += x;
        notify (f, POLLIN);
        return 8; }
    default:
        return -EINVAL;
    }
}

// ------------------------------------------------------------ sockets: messages
static long dgram_send (FileP f, const struct msghdr *m, int flags, const char *name, int fd)
{
    int e;
    if (scripted (f.get (), &e))
        return -e;
    if (f->err) { e = f->err; f->err = 0; f->errs++; return -e; }
    std::string d = iov_get (m->msg_iov, m->msg_iovlen, 1 << 20, name);
    FileP p = f->dpeer.lock ();
    bool named = false;
    if (m->msg_name && m->msg_namelen) {
        check_mem (m->msg_name, m->msg_namelen, name);
        if ((e = addr_bad (f->domain, (struct sockaddr *)m->msg_name, m->msg_namelen)))
            return -e;
        if (f->domain == AF_UNIX) {
            named = true;
            f->last_to = unix_trim (std::string ((char *)m->msg_name, m->msg_namelen));
            auto it = dgram_bound.find (addr_key (f->last_to));
            p = it == dgram_bound.end () ? nullptr : it->second.lock ();
        }
    }
    Msg msg;
    msg.d = d;
    msg.from = f->local;
    msg.id = N.sent.size () + 1;
    if (f->domain == AF_UNIX) {
        if (!p || p->nfd == 0)
            return -ECONNREFUSED;
        if (!named && (p->mq.size () >= p->mcap || (M.shortw && chance (M.shortw / 2, 256)))) {
            if (p->mq.size () < p->mcap) {
                // momentarily out of buffer memory
                fault (F_SHORT_WRITE);
                f->dnospace = true;
                std::weak_ptr<File> wf = f;
                after (1000 + noise () % 2000000, [wf] {
                    FileP f = wf.lock ();
                    if (f) { f->dnospace = false; notify (f.get (), POLLOUT | POLLWRNORM); }
                });
            }
            if (!(f->flags & O_NONBLOCK) && !(flags & MSG_DONTWAIT))
                would_block (name, fd);
            return -EAGAIN;
        }
        if (m->msg_control && m->msg_controllen) {
            check_mem (m->msg_control, m->msg_controllen, name);
            for (struct cmsghdr *c = CMSG_FIRSTHDR (m); c; c = CMSG_NXTHDR ((struct msghdr *)m, c))
                if (c->cmsg_level == SOL_SOCKET && c->cmsg_type == SCM_RIGHTS) {
                    int nf = (c->cmsg_len - CMSG_LEN (0)) / sizeof (int);
                    for (int i = 0; i < nf; i++) {
                        int x;
                        memcpy (&x, CMSG_DATA (c) + i * sizeof (int), sizeof x);
                        FileP r = file (x);
                        if (!r)
                            return -EBADF;
                        r->nfd++;
                        msg.rights.push_back (r);
                    }
                }
        }
        N.sent.push_back (Net::Sent{ msg.id, d, f->local, p->local, 1 });
        f->sends++;
        f->last_sent = d;
        p->mq.push_back (msg);
        N.queued[msg.id]++;
        notify (p.get (), POLLIN | POLLRDNORM);
        return d.size ();
    }
    std::string to = m->msg_name && m->msg_namelen ? std::string ((char *)m->msg_name, m->msg_namelen) : f->peer;
    if (to.empty ())
        return -EDESTADDRREQ;
    if (f->local.empty ()) {
        f->local = make_addr (0x7f000001, next_port++);
        dgram_bound[addr_key (f->local)] = f;
        msg.from = f->local;
    }
    if (d.size () > 65507)
        return -EMSGSIZE;
    if (M.shortw && chance (M.shortw / 2, 256)) {
        fault (F_SHORT_WRITE);
        f->dnospace = true;
        std::weak_ptr<File> wf = f;
        after (1000 + noise () % 2000000, [wf] {
            FileP f = wf.lock ();
            if (f) { f->dnospace = false; notify (f.get (), POLLOUT | POLLWRNORM); }
        });
        if (!(f->flags & O_NONBLOCK) && !(flags & MSG_DONTWAIT))
            would_block (name, fd);
        return -EAGAIN;
    }
    int copies = 1;
    if (N.loss && chance (N.loss, 256)) { copies = 0; fault (F_NET_LOSS); }
    else if (N.dup && chance (N.dup, 256)) { copies = 2; fault (F_NET_DUP); }
    N.sent.push_back (Net::Sent{ msg.id, d, msg.from, to, copies });
    f->sends++;
    f->last_sent = d;
    f->last_to = to;
    for (int i = 0; i < copies; i++) {
        uint64_t dl = N.delay ? net_delay () : 0;
        if (dl && N.reorder)
            R.faults[F_NET_REORDER]++;
        if (!dl)
            dgram_deliver (to, msg);
        else
            after (dl, [to, msg] { dgram_deliver (to, msg); });
    }
    return d.size ();
}
static long dgram_recv (FileP f, struct msghdr *m, int flags, const char *name, int fd)
{
    int e;
    if (scripted (f.get (), &e))
        return -e;
    if (f->err) { e = f->err; f->err = 0; f->errs++; return -e; }
    if (f->mq.empty ()) {
        if (!(f->flags & O_NONBLOCK) && !(flags & MSG_DONTWAIT))
            would_block (name, fd);
        return -EAGAIN;
    }
    Msg msg = f->mq.front ();
    size_t cap = iov_len (m->msg_iov, m->msg_iovlen);
    size_t k = std::min (cap, msg.d.size ());
    iov_put (m->msg_iov, m->msg_iovlen, msg.d.data (), k, name);
    int rf = 0;
    if (k < msg.d.size ())
        rf |= MSG_TRUNC;
    if (m->msg_name) {
        check_mem (m->msg_name, m->msg_namelen, name);
        memcpy (m->msg_name, msg.from.data (), std::min<size_t> (m->msg_namelen, msg.from.size ()));
        m->msg_namelen = msg.from.size ();
    }
    if (!(flags & MSG_PEEK)) {
        size_t room = m->msg_control ? m->msg_controllen : 0;
        m->msg_controllen = 0;
        if (!msg.rights.empty ()) {
            size_t need = CMSG_SPACE (sizeof (int) * msg.rights.size ());
            if (room >= need) {
                struct cmsghdr *c = (struct cmsghdr *)m->msg_control;
                c->cmsg_level = SOL_SOCKET;
                c->cmsg_type = SCM_RIGHTS;
                c->cmsg_len = CMSG_LEN (sizeof (int) * msg.rights.size ());
                for (size_t i = 0; i < msg.rights.size (); i++) {
                    int x = fd_new (msg.rights[i], 0);
                    msg.rights[i]->nfd--;
                    memcpy (CMSG_DATA (c) + i * sizeof (int), &x, sizeof x);
                }
                m->msg_controllen = need;
            } else {
                rf |= MSG_CTRUNC;
                for (auto &r : msg.rights)
                    file_unref (r);
            }
        }
        f->mq.pop_front ();
        f->pops++;
        f->last_pop = msg;
        FileP p = f->dpeer.lock ();
        if (p)
            notify (p.get (), POLLOUT | POLLWRNORM);
    }
    m->msg_flags = rf;
    if (flags & MSG_TRUNC)
        return msg.d.size ();
    return k;
}
static long stream_sendmsg (FileP f, const struct msghdr *m, int flags, const char *name, int fd)
{
    std::vector<FileP> rights;
    if (m->msg_control && m->msg_controllen) {
        check_mem (m->msg_control, m->msg_controllen, name);
        for (struct cmsghdr *c = CMSG_FIRSTHDR (m); c; c = CMSG_NXTHDR ((struct msghdr *)m, c))
            if (c->cmsg_level == SOL_SOCKET && c->cmsg_type == SCM_RIGHTS) {
                int nf = (c->cmsg_len - CMSG_LEN (0)) / sizeof (int);
                for (int i = 0; i < nf; i++) {
                    int x;
                    memcpy (&x, CMSG_DATA (c) + i * sizeof (int), sizeof x);
                    FileP r = file (x);
                    if (!r)
                        return -EBADF;
                    rights.push_back (r);
                }
            }
    }
    uint64_t off = f->tx ? f->tx->in : 0;
    File *peer = f->tx ? f->tx->r : nullptr;
    // ancillary data is queued before the bytes so that a prompt reader sees it
    long r = do_write (f.get (), m->msg_iov, m->msg_iovlen, flags, name, fd);
    if (r > 0 && !rights.empty () && peer) {
        for (auto &x : rights)
            x->nfd++;
        peer->scm.emplace_back (off, rights);
    }
    return r;
}
static long stream_recvmsg (FileP f, struct msghdr *m, int flags, const char *name, int fd)
{
    size_t room = m->msg_control ? m->msg_controllen : 0;
    uint64_t off = f->rx ? f->rx->out : 0;
    struct iovec one;
    struct iovec *v = m->msg_iov;
    int n = m->msg_iovlen;
    std::vector<struct iovec> cut;
    // a read never crosses into bytes that carry other ancillary data
    if (!f->scm.empty ()) {
        uint64_t lim = ~0ull;
        for (auto &s : f->scm)
            if (s.first > off) { lim = s.first - off; break; }
        if (lim != ~0ull && lim < iov_len (v, n)) {
            size_t left = lim;
            for (int i = 0; i < n && left; i++) {
                one = v[i];
                if (one.iov_len > left) one.iov_len = left;
                left -= one.iov_len;
                cut.push_back (one);
            }
            v = cut.data ();
            n = cut.size ();
        }
    }
    long r = do_read (f.get (), v, n, flags & MSG_PEEK, flags & MSG_DONTWAIT, name, fd);
    if (r < 0)
        return r;
    m->msg_flags = 0;
    m->msg_controllen = 0;
    if (m->msg_name)
        m->msg_namelen = 0;
    if (r > 0 && !(flags & MSG_PEEK) && !f->scm.empty () && f->scm.front ().first < off + r) {
        auto rights = f->scm.front ().second;
        f->scm.pop_front ();
        // as many descriptors as there is room for
        size_t n = room < CMSG_LEN (0) ? 0 : std::min ((room - CMSG_LEN (0)) / sizeof (int), rights.size ());
        if (n) {
            struct cmsghdr *c = (struct cmsghdr *)m->msg_control;
            check_mem (c, CMSG_LEN (sizeof (int) * n), name);
            c->cmsg_level = SOL_SOCKET;
            c->cmsg_type = SCM_RIGHTS;
            c->cmsg_len = CMSG_LEN (sizeof (int) * n);
            for (size_t i = 0; i < n; i++) {
                int x = fd_new (rights[i], 0);
                rights[i]->nfd--;
                memcpy (CMSG_DATA (c) + i * sizeof (int), &x, sizeof x);
            }
            m->msg_controllen = std::min (room, CMSG_SPACE (sizeof (int) * n));
        }
        if (n < rights.size ())
            m->msg_flags |= MSG_CTRUNC;
        for (size_t i = n; i < rights.size (); i++)
            file_unref (rights[i]);
    }
    return r;
}

// ------------------------------------------------------------ epoll
static bool ep_any (File *ep)
{
    for (auto it : ep->ready)
        if (poll_mask (it->f) & (short)(it->events | POLLERR | POLLHUP))
            return true;
    return false;
}
bool calm;
int poll_errno;
static int ep_collect (File *ep, struct epoll_event *ev, int max, bool mayhold)
{
    if (M.spurious && !calm && !ep->items.empty () && chance (M.spurious, 256)) {
        uint32_t k = choose (ep->items.size ());
        auto i = ep->items.begin ();
        std::advance (i, k);
        EpItem *it = *i;
        if (it->f->type != T_TIMER && it->f->type != T_EPOLL && !it->queued && !it->off &&
            (poll_mask (it->f) & (short)(it->events | POLLERR | POLLHUP))) {
            ep_queue (it);
            fault (F_SPURIOUS_EVENT);
        }
    }
    if (M.reorder && ep->ready.size () > 1) {
        size_t k = choose (ep->ready.size ());
        if (k) {
            std::swap (ep->ready[0], ep->ready[k]);
            fault (F_EVENT_REORDER);
        }
    }
    int n = 0;
    size_t cnt = ep->ready.size ();
    for (size_t i = 0; i < cnt && n < max; i++) {
        EpItem *it = ep->ready.front ();
        ep->ready.pop_front ();
        uint32_t m = (uint16_t)poll_mask (it->f) & (it->events | EPOLLERR | EPOLLHUP);
        if (!m) {
            it->queued = false;
            continue;
        }
        if (mayhold && M.evdelay && it->held < 3 && chance (M.evdelay, 256)) {
            it->held++;
            ep->ready.push_back (it);
            fault (F_EVENT_DELAY);
            continue;
        }
        it->held = 0;
        check_mem (&ev[n], sizeof ev[n], "epoll_wait result");
        ev[n].events = m;
        ev[n].data.u64 = it->data;
        n++;
        if (on_event)
            on_event (it->fd, m);
        if (it->events & EPOLLONESHOT) {
            it->queued = false;
            it->off = true;
        } else if (it->events & EPOLLET)
            it->queued = false;
        else
            ep->ready.push_back (it);
    }
    return n;
}
static long do_epoll_wait (FileP ep, struct epoll_event *ev, int max, int timeout)
{
    if (max <= 0)
        return -EINVAL;
    run_due_events ();
    int n = ep_collect (ep.get (), ev, max, timeout == 0);
    if (n) {
        empty_polls = 0;
        eintr_row = 0;
        return n;
    }
    if (timeout == 0) {
        if (++empty_polls > 24) {
            empty_polls = 0;
            jump_to_next_event ();
            n = ep_collect (ep.get (), ev, max, false);
        }
        return n;
    }
    empty_polls = 0;
    if (M.eintr && eintr_row < 4 && chance (M.eintr, 256)) {
        eintr_row++;
        fault (F_EINTR);
        return -EINTR;
    }
    eintr_row = 0;
    if (on_block)
        on_block ();
    uint64_t dead = timeout < 0 ? ~0ull : now () + (uint64_t)timeout * 1000000;
    if (timeout > 0)
        at (dead, [] {});
    for (;;) {
        File *e = ep.get ();
        thread_block ([e, dead] { return ep_any (e) || now () >= dead; });
        n = ep_collect (e, ev, max, false);
        if (n || now () >= dead)
            return n;
    }
}
static int fd_of (File *f, int fd) { (void)f; return fd; }
static long do_epoll_ctl (FileP ep, int op, int fd, struct epoll_event *ev)
{
    FileP f = file (fd);
    if (!f)
        return -EBADF;
    if (ep->type != T_EPOLL || f == ep)
        return -EINVAL;
    if (f->type == T_REG)
        return -EPERM;
    EpItem *it = nullptr;
    for (auto i : f->watch)
        if (i->ep == ep.get () && i->fd == fd)
            it = i;
    if (ev)
        check_mem (ev, sizeof *ev, "epoll_ctl argument");
    switch (op) {
    case EPOLL_CTL_ADD:
        if (it)
            return -EEXIST;
        if (refused (F_SETUP_FAIL))
            return -ENOMEM;
        it = new EpItem{ ep.get (), f.get (), fd_of (f.get (), fd), ev->events, ev->data.u64, false, false, 0 };
        ep->items.push_back (it);
        f->watch.push_back (it);
        break;
    case EPOLL_CTL_MOD:
        if (!it)
            return -ENOENT;
        it->events = ev->events;
        it->data = ev->data.u64;
        it->off = false;
        break;
    case EPOLL_CTL_DEL: {
        if (!it)
            return -ENOENT;
        ep->items.remove (it);
        auto &q = ep->ready;
        q.erase (std::remove (q.begin (), q.end (), it), q.end ());
        auto &w = f->watch;
        w.erase (std::remove (w.begin (), w.end (), it), w.end ());
        delete it;
        return 0; }
    default:
        return -EINVAL;
    }
    if (poll_mask (f.get ()) & (short)(it->events | POLLERR | POLLHUP))
        ep_queue (it);
    return 0;
}

// ------------------------------------------------------------ timerfd
static void timer_fire (std::weak_ptr<File> wf, uint64_t gen)
{
    FileP f = wf.lock ();
    if (!f || f->gen != gen)
        return;
    f->ticks++;
    notify (f.get (), POLLIN | POLLRDNORM);
    if (f->interval) {
        f->expire += f->interval;
        at (f->expire, [wf, gen] { timer_fire (wf, gen); });
    }
}
static uint64_t clock_of (int clk)
{
    if (clk == CLOCK_REALTIME || clk == CLOCK_REALTIME_COARSE)
        return now () + rt_off;
    return now ();
}
static uint64_t timer_latency ()
{
    if (!M.late)
        return 0;
    uint64_t l = M.late == 1 ? noise () % 60000 : noise () % 5000000;
    R.faults[F_TIMER_LATE]++;
    return l;
}
uint64_t max_timer_latency () { return M.late == 0 ? 0 : M.late == 1 ? 60000 : 5000000; }
static long do_timerfd_settime (FileP f, int flags, const struct itimerspec *n, struct itimerspec *o)
{
    check_mem (n, sizeof *n, "timerfd_settime argument");
    if (n->it_value.tv_nsec < 0 || n->it_value.tv_nsec >= 1000000000L || n->it_interval.tv_nsec < 0 ||
        n->it_interval.tv_nsec >= 1000000000L || n->it_value.tv_sec < 0)
        return -EINVAL;
    if (o) {
        uint64_t c = clock_of (f->clk), left = f->expire > c ? f->expire - c : 0;
        o->it_value.tv_sec = left / 1000000000;
        o->it_value.tv_nsec = left % 1000000000;
        o->it_interval.tv_sec = o->it_interval.tv_nsec = 0;
    }
    f->gen++;
    f->ticks = 0;
    uint64_t v = (uint64_t)n->it_value.tv_sec * 1000000000ull + n->it_value.tv_nsec;
    f->interval = (uint64_t)n->it_interval.tv_sec * 1000000000ull + n->it_interval.tv_nsec;
    f->expire = 0;
    if (!v)
        return 0;
    uint64_t c = clock_of (f->clk);
    uint64_t abs = (flags & TFD_TIMER_ABSTIME) ? v : c + v;
    f->expire = abs;
    uint64_t delta = abs > c ? abs - c : 0;
    std::weak_ptr<File> wf = f;
    uint64_t gen = f->gen;
    uint64_t lat = timer_latency ();
    if (delta == 0 && lat == 0)
        timer_fire (wf, gen);
    else
        at (now () + delta + lat, [wf, gen] { timer_fire (wf, gen); });
    return 0;
}

// ------------------------------------------------------------ poll
static int poll_eval (struct pollfd *p, nfds_t n)
{
    int r = 0;
    for (nfds_t i = 0; i < n; i++) {
        p[i].revents = 0;
        if (p[i].fd < 0)
            continue;
        FileP f = file (p[i].fd);
        if (!f)
            p[i].revents = POLLNVAL;
        else
            p[i].revents = poll_mask (f.get ()) & (p[i].events | POLLERR | POLLHUP);
        if (p[i].revents)
            r++;
    }
    return r;
}

} // namespace sim

// ============================================================ libc entry points
using namespace sim;
#define GET(fd, name) FileP f = file (fd); if (!f) return leave (name, fd, -1, EBADF)
#define RET(name, fd, r) do { long r_ = (r); return r_ < 0 ? leave (name, fd, -1, -r_) : leave (name, fd, r_, 0); } while (0)

extern "C" {

int sim_close (int fd)
{
    enter ("close", fd);
    FileP f = file (fd);
    if (!f) {
        if (fd >= 0)
            fail ("descriptor", "close of descriptor %d which is not open (closed twice?)", fd);
        return leave ("close", fd, -1, EBADF);
    }
    closes[fd]++;
    fdt[fd] = nullptr;
    file_unref (f);
    return leave ("close", fd, 0, 0);
}
ssize_t sim_readv (int fd, const struct iovec *v, int n)
{
    enter ("readv", fd);
    GET (fd, "readv");
    if (n < 0 || n > 1024) return leave ("readv", fd, -1, EINVAL);
    check_mem (v, sizeof (*v) * n, "readv vector");
    if (f->type == T_DGRAM) {
        struct msghdr m = {};
        m.msg_iov = (struct iovec *)v;
        m.msg_iovlen = n;
        RET ("readv", fd, dgram_recv (f, &m, 0, "readv", fd));
    }
    RET ("readv", fd, do_read (f.get (), v, n, false, false, "readv", fd));
}
ssize_t sim_read (int fd, void *b, size_t n)
{
    struct iovec v = { b, n };
    enter ("read", fd);
    GET (fd, "read");
    if (f->type == T_DGRAM) {
        struct msghdr m = {};
        m.msg_iov = &v;
        m.msg_iovlen = 1;
        RET ("read", fd, dgram_recv (f, &m, 0, "read", fd));
    }
    RET ("read", fd, do_read (f.get (), &v, 1, false, false, "read", fd));
}
ssize_t sim_writev (int fd, const struct iovec *v, int n)
{
    enter ("writev", fd);
    GET (fd, "writev");
    if (n < 0 || n > 1024) return leave ("writev", fd, -1, EINVAL);
    check_mem (v, sizeof (*v) * n, "writev vector");
    if (f->type == T_DGRAM) {
        struct msghdr m = {};
        m.msg_iov = (struct iovec *)v;
        m.msg_iovlen = n;
        RET ("writev", fd, dgram_send (f, &m, 0, "writev", fd));
    }
    RET ("writev", fd, do_write (f.get (), v, n, 0, "writev", fd));
}
ssize_t sim_write (int fd, const void *b, size_t n)
{
    struct iovec v = { (void *)b, n };
    if (fd == 2) {
        diag.append ((const char *)b, n);
        return n;
    }
    enter ("write", fd);
    GET (fd, "write");
    if (f->type == T_DGRAM) {
        struct msghdr m = {};
        m.msg_iov = &v;
        m.msg_iovlen = 1;
        RET ("write", fd, dgram_send (f, &m, 0, "write", fd));
    }
    RET ("write", fd, do_write (f.get (), &v, 1, 0, "write", fd));
}
ssize_t sim_pread (int fd, void *b, size_t n, off_t o)
{
    enter ("pread", fd);
    GET (fd, "pread");
    if (f->type != T_REG) return leave ("pread", fd, -1, ESPIPE);
    if ((size_t)o >= f->data->size ()) return leave ("pread", fd, 0, 0);
    size_t k = std::min (n, f->data->size () - o);
    memcpy (b, f->data->data () + o, k);
    return leave ("pread", fd, k, 0);
}
static int sock_msg_check (FileP f, const char *, int) { return f->type == T_STREAM || f->type == T_DGRAM ? 0 : f->type == T_LISTEN ? ENOTCONN : ENOTSOCK; }
ssize_t sim_recvmsg (int fd, struct msghdr *m, int flags)
{
    enter ("recvmsg", fd);
    GET (fd, "recvmsg");
    int e = sock_msg_check (f, "recvmsg", fd);
    if (e) return leave ("recvmsg", fd, -1, e);
    check_mem (m, sizeof *m, "recvmsg header");
    check_mem (m->msg_iov, sizeof (struct iovec) * m->msg_iovlen, "recvmsg vector");
    if (f->type == T_DGRAM)
        RET ("recvmsg", fd, dgram_recv (f, m, flags, "recvmsg", fd));
    RET ("recvmsg", fd, stream_recvmsg (f, m, flags, "recvmsg", fd));
}
ssize_t sim_sendmsg (int fd, const struct msghdr *m, int flags)
{
    enter ("sendmsg", fd);
    GET (fd, "sendmsg");
    int e = sock_msg_check (f, "sendmsg", fd);
    if (e) return leave ("sendmsg", fd, -1, e);
    check_mem (m, sizeof *m, "sendmsg header");
    check_mem (m->msg_iov, sizeof (struct iovec) * m->msg_iovlen, "sendmsg vector");
    if (f->type == T_DGRAM)
        RET ("sendmsg", fd, dgram_send (f, m, flags, "sendmsg", fd));
    RET ("sendmsg", fd, stream_sendmsg (f, m, flags, "sendmsg", fd));
}
ssize_t sim_recvfrom (int fd, void *b, size_t n, int flags, struct sockaddr *a, socklen_t *al)
{
    struct iovec v = { b, n };
    enter ("recvfrom", fd);
    GET (fd, "recvfrom");
    int e = sock_msg_check (f, "recvfrom", fd);
    if (e) return leave ("recvfrom", fd, -1, e);
    if (f->type == T_DGRAM) {
        struct msghdr m = {};
        m.msg_iov = &v;
        m.msg_iovlen = 1;
        if (a) {
            check_mem (al, sizeof *al, "recvfrom address length");
            m.msg_name = a;
            m.msg_namelen = *al;
        }
        long r = dgram_recv (f, &m, flags, "recvfrom", fd);
        if (r >= 0 && a)
            *al = m.msg_namelen;
        RET ("recvfrom", fd, r);
    }
    if (a && al)
        *al = 0;
    if (!f->scm.empty ()) {
        struct msghdr m = {};
        m.msg_iov = &v;
        m.msg_iovlen = 1;
        RET ("recvfrom", fd, stream_recvmsg (f, &m, flags, "recvfrom", fd));
    }
    RET ("recvfrom", fd, do_read (f.get (), &v, 1, flags & MSG_PEEK, flags & MSG_DONTWAIT, "recvfrom", fd));
}
ssize_t sim_recv (int fd, void *b, size_t n, int flags) { return sim_recvfrom (fd, b, n, flags, NULL, NULL); }
ssize_t sim_sendto (int fd, const void *b, size_t n, int flags, const struct sockaddr *a, socklen_t al)
{
    struct iovec v = { (void *)b, n };
    enter ("sendto", fd);
    GET (fd, "sendto");
    int e = sock_msg_check (f, "sendto", fd);
    if (e) return leave ("sendto", fd, -1, e);
    if (f->type == T_DGRAM) {
        struct msghdr m = {};
        m.msg_iov = &v;
        m.msg_iovlen = 1;
        if (a) {
            check_mem (a, al, "sendto address");
            m.msg_name = (void *)a;
            m.msg_namelen = al;
        }
        RET ("sendto", fd, dgram_send (f, &m, flags, "sendto", fd));
    }
    RET ("sendto", fd, do_write (f.get (), &v, 1, flags, "sendto", fd));
}
ssize_t sim_send (int fd, const void *b, size_t n, int flags) { return sim_sendto (fd, b, n, flags, NULL, 0); }

// ---- creation
static int new_fd (const char *name, FileP f, int flags)
{
    int fd = fd_new (f, flags);
    leave (name, fd, fd, 0);
    return fd;
}
static size_t pipe_cap ()
{
    static const size_t caps[] = { 65536, 4096, 64, 16, 1024 };
    return N.random_caps ? caps[choose (5)] : N.pipe_cap;
}
static int do_pipe (int p[2], int flags)
{
    FileP r = mkfile (T_PIPE_R), w = mkfile (T_PIPE_W);
    ChanP c = std::make_shared<Chan> ();
    c->cap = pipe_cap ();
    c->slots = N.random_caps ? 1 + choose (4) * 5 : 16;
    r->rx = c; w->tx = c; c->r = r.get (); c->w = w.get ();
    p[0] = fd_new (r, flags & O_NONBLOCK);
    p[1] = fd_new (w, flags & O_NONBLOCK);
    return 0;
}
int sim_pipe2 (int p[2], int flags)
{
    enter ("pipe2");
    if (refused (F_FD_FAIL)) return leave ("pipe2", -1, -1, EMFILE);
    do_pipe (p, flags);
    return leave ("pipe2", p[0], 0, 0);
}
int sim_pipe (int p[2])
{
    enter ("pipe");
    if (refused (F_FD_FAIL)) return leave ("pipe", -1, -1, EMFILE);
    do_pipe (p, 0);
    return leave ("pipe", p[0], 0, 0);
}
int sim_socket (int domain, int type, int proto)
{
    (void)proto;
    enter ("socket");
    if (refused (F_FD_FAIL)) return leave ("socket", -1, -1, EMFILE);
    int t = type & ~(SOCK_NONBLOCK | SOCK_CLOEXEC);
    FileP f = mkfile (t == SOCK_DGRAM ? T_DGRAM : T_STREAM);
    f->domain = domain;
    f->stype = t;
    return new_fd ("socket", f, type & SOCK_NONBLOCK ? O_NONBLOCK : 0);
}
int sim_socketpair (int domain, int type, int proto, int sv[2])
{
    (void)proto;
    enter ("socketpair");
    if (refused (F_FD_FAIL)) return leave ("socketpair", -1, -1, EMFILE);
    int t = type & ~(SOCK_NONBLOCK | SOCK_CLOEXEC), fl = type & SOCK_NONBLOCK ? O_NONBLOCK : 0;
    FileP a, b;
    if (t == SOCK_DGRAM) {
        a = mkfile (T_DGRAM);
        b = mkfile (T_DGRAM);
        a->dpeer = b;
        b->dpeer = a;
        if (N.random_caps)
            a->mcap = b->mcap = 1 + choose (6);
    } else {
        a = mkfile (T_STREAM);
        b = mkfile (T_STREAM);
        StreamOpt o;
        if (N.random_caps)
            random_stream_opt (o);
        o.net = false;
        make_pair (a, b, o);
    }
    a->domain = b->domain = domain;
    a->stype = b->stype = t;
    sv[0] = fd_new (a, fl);
    sv[1] = fd_new (b, fl);
    return leave ("socketpair", sv[0], 0, 0);
}
int sim_bind (int fd, const struct sockaddr *a, socklen_t l)
{
    enter ("bind", fd);
    GET (fd, "bind");
    f->local = unix_trim (std::string ((const char *)a, l));
    if (f->type == T_DGRAM)
        dgram_bound[addr_key (f->local)] = f;
    return leave ("bind", fd, 0, 0);
}
int sim_listen (int fd, int backlog)
{
    enter ("listen", fd);
    GET (fd, "listen");
    f->type = T_LISTEN;
    f->backlog = backlog;
    listeners[addr_key (f->local)] = f;
    return leave ("listen", fd, 0, 0);
}
int sim_connect (int fd, const struct sockaddr *a, socklen_t l)
{
    enter ("connect", fd);
    GET (fd, "connect");
    check_mem (a, l, "connect address");
    std::string addr ((const char *)a, l);
    if (f->type == T_DGRAM) {
        f->peer = addr;
        if (f->local.empty ()) {
            f->local = make_addr (0x7f000001, next_port++);
            dgram_bound[addr_key (f->local)] = f;
        }
        return leave ("connect", fd, 0, 0);
    }
    if (f->type != T_STREAM)
        return leave ("connect", fd, -1, EINVAL);
    switch (f->cstate) {
    case 0: {
        int e = start_connect (f, addr);
        if (e == EINPROGRESS && !(f->flags & O_NONBLOCK)) {
            if (!allow_blocking && !thread_helper ())
                would_block ("connect", fd);
            File *p = f.get ();
            thread_block ([p] { return p->cstate != 1; });
            if (p->cstate == 2) { p->cstate = 3; e = 0; }
            else { p->cstate = 0; e = p->err; p->err = 0; }
        }
        return e ? leave ("connect", fd, -1, e) : leave ("connect", fd, 0, 0); }
    case 1: return leave ("connect", fd, -1, EALREADY);
    case 2:
        if (f->was_reset && f->err) {
            // made and lost again before anybody asked
            int e = f->err;
            f->err = 0;
            probe ("connection lost before connect returns");
            return leave ("connect", fd, -1, e);
        }
        f->cstate = 3;
        return leave ("connect", fd, 0, 0);
    case 3: return leave ("connect", fd, -1, EISCONN);
    default: {
        int e = f->err ? f->err : ECONNABORTED;
        f->err = 0;
        f->cstate = 0;
        return leave ("connect", fd, -1, e); }
    }
}
static int do_accept (int fd, struct sockaddr *a, socklen_t *al, int flags, const char *name)
{
    enter (name, fd);
    GET (fd, name);
    if (f->type != T_LISTEN) return leave (name, fd, -1, EINVAL);
    int e;
    if (scripted (f.get (), &e)) return leave (name, fd, -1, e);
    if (f->aq.empty ()) {
        if (!(f->flags & O_NONBLOCK)) {
            if (!allow_blocking && !thread_helper ())
                would_block (name, fd);
            File *p = f.get ();
            thread_block ([p] { return !p->aq.empty (); });
        } else
            return leave (name, fd, -1, EAGAIN);
    }
    if (refused (F_FD_FAIL)) return leave (name, fd, -1, EMFILE);
    FileP s = f->aq.front ();
    f->aq.pop_front ();
    if (N.abort_ && chance (N.abort_, 256)) {
        fault (F_CONN_ABORT);
        for (auto &c : N.conns) if (c.id == s->conn) c.outcome = 5;
        stream_reset (s);
        return leave (name, fd, -1, ECONNABORTED);
    }
    for (auto &c : N.conns) if (c.id == s->conn) c.accepted = true;
    if (a && al) {
        check_mem (al, sizeof *al, "accept address length");
        check_mem (a, std::min<size_t> (*al, s->peer.size ()), "accept address");
        memcpy (a, s->peer.data (), std::min<size_t> (*al, s->peer.size ()));
        *al = s->peer.size ();
    }
    int n = fd_new (s, flags & SOCK_NONBLOCK ? O_NONBLOCK : 0);
    leave (name, fd, n, 0);
    return n;
}
int sim_accept (int fd, struct sockaddr *a, socklen_t *al) { return do_accept (fd, a, al, 0, "accept"); }
int sim_accept4 (int fd, struct sockaddr *a, socklen_t *al, int fl) { return do_accept (fd, a, al, fl, "accept4"); }
int sim_shutdown (int fd, int how)
{
    enter ("shutdown", fd);
    GET (fd, "shutdown");
    if (f->type != T_STREAM || f->cstate < 2) return leave ("shutdown", fd, -1, ENOTCONN);
    if (how != SHUT_RD) chan_fin (f->tx);
    if (how != SHUT_WR) { f->rx->fin = true; notify (f.get (), POLLIN | POLLRDHUP); }
    return leave ("shutdown", fd, 0, 0);
}
int sim_getsockopt (int fd, int lv, int o, void *v, socklen_t *l)
{
    enter ("getsockopt", fd);
    GET (fd, "getsockopt");
    int r = 0;
    if (lv == SOL_SOCKET && o == SO_ERROR) { r = f->err; f->err = 0; if (f->cstate == 2) f->cstate = 3; }
    if (lv == SOL_SOCKET && o == SO_TYPE) r = f->stype;
    if (l && *l >= sizeof r) { memcpy (v, &r, sizeof r); *l = sizeof r; }
    return leave ("getsockopt", fd, 0, 0);
}
int sim_setsockopt (int fd, int, int, const void *, socklen_t)
{
    enter ("setsockopt", fd);
    GET (fd, "setsockopt");
    return leave ("setsockopt", fd, 0, 0);
}
int sim_getsockname (int fd, struct sockaddr *a, socklen_t *l)
{
    enter ("getsockname", fd);
    GET (fd, "getsockname");
    memcpy (a, f->local.data (), std::min<size_t> (*l, f->local.size ()));
    *l = f->local.size ();
    return leave ("getsockname", fd, 0, 0);
}
int sim_getpeername (int fd, struct sockaddr *a, socklen_t *l)
{
    enter ("getpeername", fd);
    GET (fd, "getpeername");
    if (f->cstate < 2) return leave ("getpeername", fd, -1, ENOTCONN);
    memcpy (a, f->peer.data (), std::min<size_t> (*l, f->peer.size ()));
    *l = f->peer.size ();
    return leave ("getpeername", fd, 0, 0);
}
static int do_open (const char *path, int flags, const char *name)
{
    enter (name);
    if (refused (F_FD_FAIL)) return leave (name, -1, -1, EMFILE);
    auto it = fs.find (path);
    if (it == fs.end ()) {
        if (!(flags & O_CREAT)) return leave (name, -1, -1, ENOENT);
        it = fs.emplace (path, std::make_shared<std::string> ()).first;
    } else if ((flags & O_CREAT) && (flags & O_EXCL))
        return leave (name, -1, -1, EEXIST);
    if ((flags & O_TRUNC) && (flags & O_ACCMODE) != O_RDONLY) it->second->clear ();
    FileP f = mkfile (T_REG);
    f->data = it->second;
    f->accmode = flags & O_ACCMODE;
    return new_fd (name, f, flags & (O_NONBLOCK | O_APPEND));
}
#define OPEN_MODE(flags) do { if ((flags) & O_CREAT) { va_list ap; va_start (ap, flags); N.open_mode = va_arg (ap, mode_t); va_end (ap); } } while (0)
int sim_open (const char *p, int flags, ...) { OPEN_MODE (flags); return do_open (p, flags, "open"); }
int sim_openat (int, const char *p, int flags, ...) { OPEN_MODE (flags); return do_open (p, flags, "openat"); }
int sim_creat (const char *p, mode_t m) { N.open_mode = m; return do_open (p, O_CREAT | O_WRONLY | O_TRUNC, "creat"); }
int sim_dup (int fd)
{
    enter ("dup", fd);
    GET (fd, "dup");
    if (refused (F_FD_FAIL)) return leave ("dup", fd, -1, EMFILE);
    int n = fd_new (f, 0);
    return leave ("dup", fd, n, 0);
}
static int do_dup2 (int o, int n, const char *name)
{
    enter (name, o);
    GET (o, name);
    if (n < 0) return leave (name, o, -1, EBADF);
    if (refused (F_FD_FAIL)) return leave (name, o, -1, EMFILE);
    if (o == n) return leave (name, o, n, 0);
    while ((size_t)n >= fdt.size ()) fdt.push_back (nullptr);
    FileP old = fdt[n];
    fdt[n] = f;
    f->nfd++;
    if (old) file_unref (old);
    return leave (name, o, n, 0);
}
int sim_dup2 (int o, int n) { return do_dup2 (o, n, "dup2"); }
int sim_dup3 (int o, int n, int) { return do_dup2 (o, n, "dup3"); }
int sim_fcntl (int fd, int cmd, ...)
{
    va_list ap;
    va_start (ap, cmd);
    long arg = va_arg (ap, long);
    va_end (ap);
    enter ("fcntl", fd);
    GET (fd, "fcntl");
    switch (cmd) {
    case F_GETFL:
        if (refused (F_SETUP_FAIL)) return leave ("fcntl", fd, -1, EINVAL);
        return leave ("fcntl", fd, f->flags | f->accmode, 0);
    case F_SETFL:
        if (refused (F_SETUP_FAIL)) return leave ("fcntl", fd, -1, EINVAL);
        f->flags = (f->flags & ~(O_NONBLOCK | O_APPEND)) | (arg & (O_NONBLOCK | O_APPEND));
        return leave ("fcntl", fd, 0, 0);
    case F_GETFD: return leave ("fcntl", fd, 1, 0);
    case F_SETFD:
        if (refused (F_SETUP_FAIL)) return leave ("fcntl", fd, -1, EINVAL);
        return leave ("fcntl", fd, 0, 0);
    case F_DUPFD: case F_DUPFD_CLOEXEC: {
        if (refused (F_FD_FAIL)) return leave ("fcntl", fd, -1, EMFILE);
        int n = fd_new (f, 0);
        return leave ("fcntl", fd, n, 0); }
    case F_GETPIPE_SZ:
        if (f->rx || f->tx) return leave ("fcntl", fd, (f->rx ? f->rx : f->tx)->cap, 0);
        return leave ("fcntl", fd, -1, EBADF);
    case F_SETPIPE_SZ:
        if (f->rx || f->tx) return leave ("fcntl", fd, (f->rx ? f->rx : f->tx)->cap, 0);
        return leave ("fcntl", fd, -1, EBADF);
    }
    return leave ("fcntl", fd, 0, 0);
}
int sim_ioctl (int fd, unsigned long req, ...)
{
    va_list ap;
    va_start (ap, req);
    void *arg = va_arg (ap, void *);
    va_end (ap);
    enter ("ioctl", fd);
    GET (fd, "ioctl");
    if (req == FIONBIO) {
        if (refused (F_SETUP_FAIL)) return leave ("ioctl", fd, -1, EINVAL);
        check_mem (arg, sizeof (int), "ioctl argument");
        if (*(int *)arg) f->flags |= O_NONBLOCK; else f->flags &= ~O_NONBLOCK;
        return leave ("ioctl", fd, 0, 0);
    }
    if (req == FIONREAD) {
        *(int *)arg = f->rx ? f->rx->q.size () : f->mq.size () ? f->mq.front ().d.size () : 0;
        return leave ("ioctl", fd, 0, 0);
    }
    return leave ("ioctl", fd, -1, ENOTTY);
}
ssize_t sim_splice (int in, off_t *, int out, off_t *, size_t len, unsigned flags)
{
    enter ("splice", in);
    FileP a = file (in), b = file (out);
    if (!a || !b) return leave ("splice", in, -1, EBADF);
    bool pa = a->type == T_PIPE_R, pb = b->type == T_PIPE_W;
    if (!pa && !pb) return leave ("splice", in, -1, EINVAL);
    if (!len) return leave ("splice", in, 0, 0);
    int e;
    if (scripted (a.get (), &e) || scripted (b.get (), &e)) return leave ("splice", in, -1, e);
    bool nb = (flags & 2) || ((a->flags & O_NONBLOCK) && (b->flags & O_NONBLOCK));
    // output first: a full pipe is would-block even at end of input
    if (b->type == T_PIPE_W || b->type == T_STREAM) {
        if (b->type == T_STREAM && b->cstate < 2) return leave ("splice", in, -1, ENOTCONN);
        if (b->err) { e = b->err; b->err = 0; return leave ("splice", in, -1, e); }
        if (b->tx->rshut || b->tx->dead || b->tx->wshut) return leave ("splice", in, -1, EPIPE);
        // a pipe as output is checked before the input is looked at
        if (pb && !b->tx->room ()) {
            b->tx->nospace = true;
            if (!nb) would_block ("splice", out);
            return leave ("splice", in, -1, EAGAIN);
        }
    } else if (b->type != T_REG)
        return leave ("splice", in, -1, EINVAL);
    size_t avail;
    if (a->type == T_REG) avail = a->off < a->data->size () ? a->data->size () - a->off : 0;
    else if (a->rx) avail = a->rx->q.size ();
    else return leave ("splice", in, -1, EINVAL);
    if (!avail) {
        if (a->type == T_REG) return leave ("splice", in, 0, 0);
        if (a->type == T_STREAM && a->cstate < 2) return leave ("splice", in, -1, ENOTCONN);
        if (a->err) { e = a->err; a->err = 0; return leave ("splice", in, -1, e); }
        if (a->rx->fin || a->rx->dead || a->rx->rshut) return leave ("splice", in, 0, 0);
        if (!nb) would_block ("splice", in);
        return leave ("splice", in, -1, EAGAIN);
    }
    if (b->type == T_REG) {
        std::string t (std::min (len, avail), 0);
        chan_take (a->rx, &t[0], t.size (), false);
        b->data->replace (b->off, t.size (), t);
        b->off += t.size ();
        return leave ("splice", in, t.size (), 0);
    }
    size_t room = b->tx->room ();
    if (!room) {
        b->tx->nospace = true;
        if (!nb) would_block ("splice", out);
        return leave ("splice", in, -1, EAGAIN);
    }
    size_t k = std::min (std::min (len, avail), room);
    // the kernel may stop at a buffer boundary
    if (k > 1 && pa && a->rx->chunks.size () > 1 && a->rx->chunks.front () < k && (noise () & 1))
        k = a->rx->chunks.front ();
    std::string t (k, 0);
    if (a->type == T_REG) { memcpy (&t[0], a->data->data () + a->off, k); a->off += k; }
    else {
        chan_take (a->rx, &t[0], k, true);
    }
    size_t w = chan_write (b->tx, t.data (), k, !pb);
    if (a->type != T_REG && w) {
        std::string u (w, 0);
        chan_take (a->rx, &u[0], w, false);
    }
    if (w < std::min (len, avail)) b->tx->nospace = true;
    return leave ("splice", in, w, 0);
}

// ---- epoll, timers, poll, clocks
int sim_epoll_create1 (int)
{
    enter ("epoll_create");
    if (refused (F_FD_FAIL)) return leave ("epoll_create", -1, -1, EMFILE);
    return new_fd ("epoll_create", mkfile (T_EPOLL), 0);
}
int sim_epoll_create (int n)
{
    if (n <= 0) { errno = EINVAL; return -1; }
    return sim_epoll_create1 (0);
}
int sim_epoll_ctl (int ep, int op, int fd, struct epoll_event *ev)
{
    enter ("epoll_ctl", fd);
    GET (ep, "epoll_ctl");
    RET ("epoll_ctl", fd, do_epoll_ctl (f, op, fd, ev));
}
int sim_epoll_wait (int ep, struct epoll_event *ev, int max, int timeout)
{
    enter ("epoll_wait", ep);
    GET (ep, "epoll_wait");
    if (f->type != T_EPOLL) return leave ("epoll_wait", ep, -1, EINVAL);
    RET ("epoll_wait", ep, do_epoll_wait (f, ev, max, timeout));
}
int sim_epoll_pwait (int ep, struct epoll_event *ev, int max, int timeout, const void *) { return sim_epoll_wait (ep, ev, max, timeout); }
int sim_epoll_pwait2 (int ep, struct epoll_event *ev, int max, const struct timespec *t, const void *)
{
    return sim_epoll_wait (ep, ev, max, t ? (int)(t->tv_sec * 1000 + (t->tv_nsec + 999999) / 1000000) : -1);
}
int sim_timerfd_create (int clk, int flags)
{
    enter ("timerfd_create");
    if (refused (F_FD_FAIL)) return leave ("timerfd_create", -1, -1, EMFILE);
    FileP f = mkfile (T_TIMER);
    f->clk = clk;
    return new_fd ("timerfd_create", f, flags & TFD_NONBLOCK ? O_NONBLOCK : 0);
}
int sim_timerfd_settime (int fd, int flags, const struct itimerspec *n, struct itimerspec *o)
{
    enter ("timerfd_settime", fd);
    GET (fd, "timerfd_settime");
    if (f->type != T_TIMER) return leave ("timerfd_settime", fd, -1, EINVAL);
    RET ("timerfd_settime", fd, do_timerfd_settime (f, flags, n, o));
}
int sim_timerfd_gettime (int fd, struct itimerspec *o)
{
    enter ("timerfd_gettime", fd);
    GET (fd, "timerfd_gettime");
    uint64_t c = clock_of (f->clk), left = f->expire > c ? f->expire - c : 0;
    memset (o, 0, sizeof *o);
    o->it_value.tv_sec = left / 1000000000;
    o->it_value.tv_nsec = left % 1000000000;
    return leave ("timerfd_gettime", fd, 0, 0);
}
int sim_clock_gettime (clockid_t c, struct timespec *t)
{
    enter ("clock_gettime");
    uint64_t n = clock_of (c);
    check_mem (t, sizeof *t, "clock_gettime result");
    t->tv_sec = n / 1000000000;
    t->tv_nsec = n % 1000000000;
    return leave ("clock_gettime", -1, 0, 0);
}
int sim_gettimeofday (struct timeval *t, void *)
{
    enter ("gettimeofday");
    uint64_t n = clock_of (CLOCK_REALTIME);
    t->tv_sec = n / 1000000000;
    t->tv_usec = n % 1000000000 / 1000;
    return leave ("gettimeofday", -1, 0, 0);
}
time_t sim_time (time_t *t)
{
    enter ("time");
    time_t r = clock_of (CLOCK_REALTIME) / 1000000000;
    if (t) *t = r;
    leave ("time", -1, 0, 0);
    return r;
}
int sim_poll (struct pollfd *p, nfds_t n, int timeout)
{
    enter ("poll", n ? p[0].fd : -1);
    check_mem (p, sizeof (*p) * n, "poll argument");
    if (M.pollerr && !calm && !thread_helper () && chance (M.pollerr, 256)) {
        fault (F_IO_ERROR);
        poll_errno = choose (2) ? EINTR : ENOMEM;
        return leave ("poll", n ? p[0].fd : -1, -1, poll_errno);
    }
    int r = poll_eval (p, n);
    if (!r && timeout) {
        if (M.eintr && eintr_row < 4 && chance (M.eintr, 256)) {
            eintr_row++;
            fault (F_EINTR);
            return leave ("poll", n ? p[0].fd : -1, -1, EINTR);
        }
        eintr_row = 0;
        if (!allow_blocking && !thread_helper ())
            fail ("blocked", "the whole thread would block inside poll");
        uint64_t dead = timeout < 0 ? ~0ull : now () + (uint64_t)timeout * 1000000;
        if (timeout > 0) at (dead, [] {});
        thread_block ([=] { return poll_eval (p, n) || now () >= dead; });
        r = poll_eval (p, n);
    }
    return leave ("poll", n ? p[0].fd : -1, r, 0);
}
int sim_ppoll (struct pollfd *p, nfds_t n, const struct timespec *t, const void *)
{
    return sim_poll (p, n, t ? (int)(t->tv_sec * 1000 + t->tv_nsec / 1000000) : -1);
}
int sim_eventfd (unsigned v, int flags)
{
    enter ("eventfd");
    if (refused (F_FD_FAIL)) return leave ("eventfd", -1, -1, EMFILE);
    FileP f = mkfile (T_EVENT);
    f->ticks = v;
    return new_fd ("eventfd", f, flags & O_NONBLOCK);
}
// a blocking sleep stops the whole thread
static void thread_sleep (uint64_t ns)
{
    if (!thread_helper ())
        return advance (ns);
    uint64_t t = now () + ns;
    at (t, [] {});
    thread_block ([t] { return now () >= t; });
}
int sim_nanosleep (const struct timespec *t, struct timespec *)
{
    enter ("nanosleep");
    thread_sleep ((uint64_t)t->tv_sec * 1000000000ull + t->tv_nsec);
    return leave ("nanosleep", -1, 0, 0);
}
int sim_clock_nanosleep (clockid_t c, int flags, const struct timespec *t, struct timespec *)
{
    enter ("clock_nanosleep");
    uint64_t d = (uint64_t)t->tv_sec * 1000000000ull + t->tv_nsec;
    if (flags & TIMER_ABSTIME) {
        struct timespec n;
        sim_clock_gettime (c, &n);
        uint64_t b = (uint64_t)n.tv_sec * 1000000000ull + n.tv_nsec;
        d = d > b ? d - b : 0;
    }
    thread_sleep (d);
    return 0;
}
int sim_clock_getres (clockid_t, struct timespec *t)
{
    if (t) { t->tv_sec = 0; t->tv_nsec = M.gran ? M.gran : 1; }
    return 0;
}
int sim_usleep (unsigned u) { enter ("usleep"); thread_sleep ((uint64_t)u * 1000); return leave ("usleep", -1, 0, 0); }
unsigned sim_sleep (unsigned s) { enter ("sleep"); thread_sleep ((uint64_t)s * 1000000000ull); return leave ("sleep", -1, 0, 0); }
int sim_sched_yield () { enter ("sched_yield"); return 0; }

void rt_jump (int64_t d) { rt_off += d; R.faults[F_REALTIME_JUMP]++; }
bool sys_refused (int k) { return refused ((Fault)k); }
void sys_enter (const char *n) { enter (n); }
long sys_leave (const char *n, int fd, long r, int e) { return leave (n, fd, r, e); }
}
