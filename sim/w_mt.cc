// P20 task systems in several threads.
#include "w_cio.h"
#include <hev-task-mutex.h>
#include <hev-task-cond.h>
#include <hev-task-channel.h>
#include <hev-task-channel-select.h>
#include <hev-task-call.h>
#include <hev-circular-buffer.h>
#include <sys/socket.h>
using namespace w;
namespace p20 {
// one program of a thread: what it must see does not depend on the other threads
struct World {
    int thr, cyc;
    HevTaskMutex mutex;
    HevTaskCond cond;
    bool inside = false;
    int left = 0;                      // program tasks not ended yet
    uint64_t key (uint64_t i) { return (uint64_t)(thr * 16 + cyc + 1) * 0x9e3779b97f4a7c15ull + i * 77; }
};
static void mine (World *)
{
    CHECK (hev_task_self () == self ()->t, "current", "the current task of thread %d is not the one that runs", thread_self ());
}
static void sleeps (World *w, uint32_t n)
{
    for (uint32_t i = 0; i < n; i++) {
        uint64_t t0 = now (), us = choose (2) ? 1000 * (1 + choose (30)) : 1 + noise () % 20000, pk = self ()->pokes;
        self ()->what = "sleep";
        uint64_t left = hev_task_usleep (us);
        turn_no++;
        mine (w);
        // the clock the library reads may be as coarse as the machine's
        uint64_t slack = 200 + 30 * (uint64_t)M.gran / 1000;
        if (self ()->pokes == pk && !R.faults[F_SPURIOUS_WAKE]) {
            CHECK ((now () - t0) / 1000 + slack >= us, "sleep", "a sleep of %llu us ended after %llu us", (unsigned long long)us, (unsigned long long)((now () - t0) / 1000));
            CHECK (left == 0, "sleep", "an undisturbed sleep reports %llu us left", (unsigned long long)left);
        }
        if (choose (3) == 2)
            yield ();
    }
}
static void yields (World *w, uint32_t n)
{
    for (uint32_t i = 0; i < n; i++) {
        yield ();
        mine (w);
        if (choose (4) == 3)
            hev_task_set_priority (hev_task_self (), 1 + choose (15));
    }
}
static void locks (World *w, uint32_t n)
{
    for (uint32_t i = 0; i < n; i++) {
        self ()->what = "mutex";
        hev_task_mutex_lock (&w->mutex);
        turn_no++;
        CHECK (!w->inside, "mutex", "two tasks of one thread hold the same mutex");
        w->inside = true;
        switch (choose (3)) {
        case 1: yield (); break;
        case 2: hev_task_sleep (1); turn_no++; break;
        }
        mine (w);
        w->inside = false;
        hev_task_mutex_unlock (&w->mutex);
        if (choose (2))
            yield ();
    }
}
static void memory (World *w, uint32_t n, bool in_task = true)
{
    struct B { uint8_t *p; size_t n; uint8_t c; };
    std::vector<B> bs;
    for (uint32_t i = 0; i < n; i++) {
        if (bs.size () && choose (2)) {
            uint32_t k = choose (bs.size ());
            for (size_t j = 0; j < bs[k].n; j++)
                CHECK (bs[k].p[j] == bs[k].c, "memory", "a memory block of thread %d changed", thread_self ());
            hev_free (bs[k].p);
            bs.erase (bs.begin () + k);
        } else {
            B b;
            b.n = choose (2) ? 1 + noise () % 200 : 1 + noise () % 5000;
            b.c = (uint8_t)w->key (i);
            b.p = (uint8_t *)(choose (2) ? hev_malloc (b.n) : hev_malloc0 (b.n));
            CHECK (b.p, "memory", "memory is refused although there is enough");
            memset (b.p, b.c, b.n);
            bs.push_back (b);
        }
        if (choose (4) == 3 && in_task)
            yield ();
    }
    for (auto &b : bs) {
        for (size_t j = 0; j < b.n; j++)
            CHECK (b.p[j] == b.c, "memory", "a memory block of thread %d changed", thread_self ());
        hev_free (b.p);
    }
}
static void chan_pair (World *w)
{
    HevTaskChannel *a, *b;
    bool buf = choose (2);
    int r = buf ? hev_task_channel_new_with_buffers (&a, &b, 8, 1 + choose (3)) : hev_task_channel_new (&a, &b);
    CHECK (r == 0, "create", "a channel is refused although there is memory");
    uint32_t n = 1 + choose (12);
    w->left += 2;
    spawn ([=] {
        for (uint32_t i = 0; i < n; i++) {
            uint64_t v = w->key (i);
            self ()->what = "channel write";
            ssize_t s = hev_task_channel_write (a, &v, 8);
            turn_no++;
            CHECK (s == 8, "channel", "a message of thread %d is not accepted", thread_self ());
            mine (w);
        }
        hev_task_channel_destroy (a);
        w->left--;
    }, rprio ());
    spawn ([=] {
        uint32_t i = 0;
        for (;;) {
            uint64_t v = 0;
            self ()->what = "channel read";
            ssize_t s = hev_task_channel_read (b, &v, 8);
            turn_no++;
            mine (w);
            if (s < 0)
                break;
            CHECK (s == 8 && v == w->key (i), "channel", "a channel of thread %d delivers something else", thread_self ());
            i++;
        }
        CHECK (i == n, "channel", "a channel of thread %d delivered %u of %u messages", thread_self (), i, n);
        hev_task_channel_destroy (b);
        w->left--;
    }, rprio ());
}
static void put (int fd, uint64_t key, uint32_t n, HevTaskCIO *c)
{
    for (uint32_t i = 0; i < n;) {
        uint8_t t[64];
        uint32_t k = 1 + noise () % 64;
        if (k > n - i)
            k = n - i;
        for (uint32_t j = 0; j < k; j++)
            t[j] = (uint8_t)(key + (i + j) * 131);
        self ()->what = c ? "stream write" : "write";
        ssize_t s = c ? hev_task_cio_write (c, t, k, NULL, NULL) : hev_task_io_write (fd, t, k, NULL, NULL);
        turn_no++;
        CHECK (s > 0, "io", "a write of thread %d fails", thread_self ());
        i += s;
    }
}
static void get (int fd, uint64_t key, uint32_t n, HevTaskCIO *c)
{
    for (uint32_t i = 0;;) {
        uint8_t t[64];
        self ()->what = c ? "stream read" : "read";
        ssize_t s = c ? hev_task_cio_read (c, t, 1 + noise () % 64, NULL, NULL) : hev_task_io_read (fd, t, 1 + noise () % 64, NULL, NULL);
        turn_no++;
        CHECK (s >= 0, "io", "a read of thread %d fails", thread_self ());
        if (s == 0) {
            CHECK (i == n, "io", "a stream into thread %d ended after %u of %u bytes", thread_self (), i, n);
            return;
        }
        for (ssize_t j = 0; j < s; j++)
            CHECK (t[j] == (uint8_t)(key + (i + j) * 131), "io", "a stream into thread %d carries other bytes", thread_self ());
        i += s;
    }
}
// one end of a byte stream; the other end may belong to another thread
static void end_of_stream (World *w, int fd, bool out, uint64_t key, uint32_t n)
{
    HevTask *me = hev_task_self ();
    HevTaskCIO *c = nullptr;
    CHECK (hev_task_add_fd (me, fd, out ? POLLOUT : POLLIN) == 0, "io", "a descriptor is not registered");
    switch (choose (4)) {
    case 1: c = hev_task_cio_fd_new (fd, fd); break;
    case 2: c = hev_task_cio_socket_new (AF_UNIX, fd); break;
    case 3: {
        HevTaskCIO *l = hev_task_cio_fd_new (fd, fd);
        c = hev_task_cio_buffer_new (100, 100);
        CHECK (c && l, "create", "a stream is refused although there is memory");
        hev_task_cio_push (c, l);
        break;
    }
    }
    bool st = c;
    if (out) {
        put (fd, key, n, c);
        if (c) {
            self ()->what = "flush";
            hev_task_cio_flush (c, NULL, NULL);
            turn_no++;
        }
    } else
        get (fd, key, n, c);
    mine (w);
    hev_task_del_fd (me, fd);
    if (st)
        g_unref (c);
    else
        sim_close (fd);
}
static void inner_stream (World *w)
{
    int p[2];
    sim_socketpair (AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, p);
    uint32_t n = noise () % 400;
    uint64_t key = w->key (5);
    w->left += 2;
    spawn ([=] { end_of_stream (w, p[0], true, key, n); w->left--; }, rprio ());
    spawn ([=] { end_of_stream (w, p[1], false, key, n); w->left--; }, rprio ());
}
// writer - relay - reader
static void relayed (World *w)
{
    int a[2], b[2];
    sim_socketpair (AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, a);
    sim_socketpair (AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, b);
    uint32_t n = noise () % 600;
    uint64_t key = w->key (9);
    bool streams = choose (2);
    size_t room = 1 + noise () % 300;
    w->left += 3;
    spawn ([=] { end_of_stream (w, a[0], true, key, n); w->left--; }, rprio ());
    spawn ([=] {
        HevTask *me = hev_task_self ();
        CHECK (hev_task_add_fd (me, a[1], POLLIN | POLLOUT) == 0, "io", "a descriptor is not registered");
        CHECK (hev_task_add_fd (me, b[0], POLLIN | POLLOUT) == 0, "io", "a descriptor is not registered");
        self ()->what = "relay";
        if (streams) {
            HevTaskCIO *x = hev_task_cio_fd_new (a[1], a[1]), *y = hev_task_cio_socket_new (AF_UNIX, b[0]);
            CHECK (x && y, "create", "a stream is refused although there is memory");
            if (choose (2)) {
                HevTaskCIO *l = y;
                y = hev_task_cio_buffer_new (50, 50);
                CHECK (y, "create", "a stream is refused although there is memory");
                hev_task_cio_push (y, l);
            }
            hev_task_cio_splice (x, y, room, NULL, NULL);
            turn_no++;
            mine (w);
            hev_task_del_fd (me, a[1]);
            hev_task_del_fd (me, b[0]);
            g_unref (x);
            g_unref (y);
        } else {
            hev_task_io_splice (a[1], a[1], b[0], b[0], room, NULL, NULL);
            turn_no++;
            mine (w);
            hev_task_del_fd (me, a[1]);
            hev_task_del_fd (me, b[0]);
            sim_close (a[1]);
            sim_close (b[0]);
        }
        w->left--;
    }, rprio ());
    spawn ([=] { end_of_stream (w, b[1], false, key, n); w->left--; }, rprio ());
}
static void messages (World *w)
{
    int p[2];
    sim_socketpair (AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, p);
    uint32_t n = 1 + choose (10);
    bool polls = choose (2);
    w->left += 2;
    auto vec = [] (struct msghdr *m, struct iovec *v, uint64_t *d) {
        memset (m, 0, sizeof *m);
        v[0] = { d, 5 };
        v[1] = { (char *)d + 5, 11 };
        m->msg_iov = v;
        m->msg_iovlen = 2;
    };
    spawn ([=] {
        CHECK (hev_task_add_fd (hev_task_self (), p[0], POLLOUT) == 0, "io", "a descriptor is not registered");
        for (uint32_t i = 0; i < n; i++) {
            uint64_t d[2] = { w->key (i), w->key (i) + 3 };
            struct msghdr m;
            struct iovec v[2];
            vec (&m, v, d);
            self ()->what = "sendmsg";
            CHECK (hev_task_io_socket_sendmsg (p[0], &m, MSG_WAITALL, NULL, NULL) == 16, "io", "a message of thread %d is not sent", thread_self ());
            turn_no++;
            mine (w);
            if (choose (3) == 2)
                yield ();
        }
        hev_task_del_fd (hev_task_self (), p[0]);
        sim_close (p[0]);
        w->left--;
    }, rprio ());
    spawn ([=] {
        CHECK (hev_task_add_fd (hev_task_self (), p[1], POLLIN) == 0, "io", "a descriptor is not registered");
        for (uint32_t i = 0; i < n; i++) {
            uint64_t d[2] = { 0, 0 };
            struct msghdr m;
            struct iovec v[2];
            vec (&m, v, d);
            if (polls) {
                HevTaskIOPollFD f;
                memset (&f, 0, sizeof f);
                f.fd = p[1];
                f.events = POLLIN;
                self ()->what = "poll";
                CHECK (hev_task_io_poll (&f, 1, -1) == 1 && f.revents & POLLIN, "io", "a poll of thread %d reports something else", thread_self ());
                turn_no++;
            }
            self ()->what = "recvmsg";
            CHECK (hev_task_io_socket_recvmsg (p[1], &m, MSG_WAITALL, NULL, NULL) == 16, "io", "a message for thread %d is not received", thread_self ());
            turn_no++;
            mine (w);
            CHECK (d[0] == w->key (i) && d[1] == w->key (i) + 3, "io", "a message for thread %d carries other bytes", thread_self ());
        }
        hev_task_del_fd (hev_task_self (), p[1]);
        sim_close (p[1]);
        w->left--;
    }, rprio ());
}
// datagrams, plain and through streams, in two pieces
static void datagrams (World *w)
{
    int p[2];
    sim_socketpair (AF_UNIX, SOCK_DGRAM | SOCK_NONBLOCK, 0, p);
    uint32_t n = 1 + choose (10);
    w->left += 2;
    for (int side = 0; side < 2; side++)
        spawn ([=] {
            HevTask *me = hev_task_self ();
            CHECK (hev_task_add_fd (me, p[side], side ? POLLIN : POLLOUT) == 0, "io", "a descriptor is not registered");
            HevTaskCIO *c = choose (2) ? hev_task_cio_socket_new (AF_UNIX, p[side]) : nullptr;
            for (uint32_t i = 0; i < n; i++) {
                char a[128];
                socklen_t al = sizeof a;
                uint64_t d[3] = { w->key (i), w->key (i) + 5, 0 };
                if (side)
                    d[0] = d[1] = 0;
                struct iovec v[2] = { { d, 3 }, { (char *)d + 3, 13 } };
                ssize_t r;
                self ()->what = side ? "datagram receive" : "datagram send";
                if (!side)
                    r = !c ? hev_task_io_socket_sendto (p[0], d, 16, 0, NULL, 0, NULL, NULL)
                        : choose (2) ? hev_task_cio_writev_dgram (c, v, 2, NULL, NULL, NULL) : hev_task_cio_write_dgram (c, d, 16, NULL, NULL, NULL);
                else
                    r = !c ? hev_task_io_socket_recvfrom (p[1], d, 24, 0, (struct sockaddr *)a, &al, NULL, NULL)
                        : choose (2) ? hev_task_cio_readv_dgram (c, v, 2, a, NULL, NULL) : hev_task_cio_read_dgram (c, d, 24, a, NULL, NULL);
                turn_no++;
                mine (w);
                CHECK (r == 16, "io", "a datagram of thread %d is %s with %ld of 16 bytes", thread_self (), side ? "received" : "sent", (long)r);
                CHECK (d[0] == w->key (i) && d[1] == w->key (i) + 5, "io", "a datagram for thread %d carries other bytes", thread_self ());
                if (choose (3) == 2)
                    yield ();
            }
            hev_task_del_fd (me, p[side]);
            if (c)
                g_unref (c);
            else
                sim_close (p[side]);
            w->left--;
        }, rprio ());
}
// exact transfers of vectors
static void exact (World *w)
{
    int p[2];
    sim_socketpair (AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, p);
    uint32_t n = 1 + choose (5), len = 30 + noise () % 300;
    w->left += 2;
    for (int side = 0; side < 2; side++)
        spawn ([=] {
            HevTask *me = hev_task_self ();
            CHECK (hev_task_add_fd (me, p[side], side ? POLLIN : POLLOUT) == 0, "io", "a descriptor is not registered");
            HevTaskCIO *c = hev_task_cio_socket_new (AF_UNIX, p[side]);
            CHECK (c, "create", "a stream is refused although there is memory");
            if (choose (2)) {
                HevTaskCIO *l = c;
                c = hev_task_cio_buffer_new (40, 40);
                CHECK (c, "create", "a stream is refused although there is memory");
                hev_task_cio_push (c, l);
            }
            for (uint32_t i = 0; i < n; i++) {
                std::string d (len, 0);
                if (!side)
                    for (uint32_t j = 0; j < len; j++)
                        d[j] = (char)(w->key (i) + j * 7);
                struct iovec v[3] = { { &d[0], 7 }, { &d[7], 20 }, { &d[27], len - 27 } };
                self ()->what = side ? "exact read" : "exact write";
                ssize_t r;
                if (choose (2))
                    r = side ? hev_task_cio_readv_exact (c, v, 3, NULL, NULL) : hev_task_cio_writev_exact (c, v, 3, NULL, NULL);
                else
                    r = side ? hev_task_cio_read_exact (c, &d[0], len, NULL, NULL) : hev_task_cio_write_exact (c, &d[0], len, NULL, NULL);
                turn_no++;
                mine (w);
                CHECK (r == (ssize_t)len, "io", "an exact transfer of thread %d moves %ld of %u bytes", thread_self (), (long)r, len);
                for (uint32_t j = 0; j < len; j++)
                    CHECK (d[j] == (char)(w->key (i) + j * 7), "io", "an exact transfer of thread %d carries other bytes", thread_self ());
            }
            if (!side)
                CHECK (hev_task_cio_flush (c, NULL, NULL) == 0, "io", "a flush of thread %d fails", thread_self ());
            hev_task_del_fd (me, p[side]);
            g_unref (c);
            w->left--;
        }, rprio ());
}
static uint16_t port;
// a connection inside the thread
static void connects (World *w)
{
    uint32_t n = 1 + choose (4);
    int l = hev_task_io_socket_socket (AF_INET, SOCK_STREAM, 0);
    std::string ad = make_addr (0x0a000001 + w->thr, 1000 + port++);
    CHECK (l >= 0 && sim_bind (l, (struct sockaddr *)ad.data (), ad.size ()) == 0 && sim_listen (l, 5) == 0, "create", "a listening socket is refused");
    w->left += 2;
    spawn ([=] {
        HevTask *me = hev_task_self ();
        CHECK (hev_task_add_fd (me, l, POLLIN) == 0, "io", "a descriptor is not registered");
        for (uint32_t i = 0; i < n; i++) {
            self ()->what = "accept";
            int fd = hev_task_io_socket_accept (l, NULL, NULL, NULL, NULL);
            turn_no++;
            mine (w);
            CHECK (fd >= 0, "connect", "an accept of thread %d fails", thread_self ());
            uint64_t v = 0;
            CHECK (hev_task_add_fd (me, fd, POLLIN) == 0, "io", "a descriptor is not registered");
            self ()->what = "receive";
            ssize_t r = hev_task_io_socket_recv (fd, &v, 8, MSG_WAITALL, NULL, NULL);
            turn_no++;
            CHECK (r == 8 && v == w->key (i), "connect", "a connection of thread %d carries other bytes", thread_self ());
            sim_close (fd);
        }
        sim_close (l);
        w->left--;
    }, rprio ());
    spawn ([=] {
        HevTask *me = hev_task_self ();
        for (uint32_t i = 0; i < n; i++) {
            int fd = hev_task_io_socket_socket (AF_INET, SOCK_STREAM, 0);
            CHECK (fd >= 0, "create", "a socket is refused");
            CHECK (hev_task_add_fd (me, fd, POLLOUT) == 0, "io", "a descriptor is not registered");
            self ()->what = "connect";
            CHECK (hev_task_io_socket_connect (fd, (const struct sockaddr *)ad.data (), ad.size (), NULL, NULL) == 0, "connect", "a connect of thread %d fails", thread_self ());
            turn_no++;
            mine (w);
            uint64_t v = w->key (i);
            self ()->what = "send";
            CHECK (hev_task_io_socket_send (fd, &v, 8, MSG_WAITALL, NULL, NULL) == 8, "connect", "a send of thread %d fails", thread_self ());
            turn_no++;
            sim_close (fd);
        }
        w->left--;
    }, rprio ());
}
// two producers, one consumer that selects
static void selects (World *w)
{
    HevTaskChannel *a[2], *b[2];
    uint32_t n = 1 + choose (8);
    for (int k = 0; k < 2; k++)
        CHECK (hev_task_channel_new_with_buffers (&a[k], &b[k], 8, 1 + choose (3)) == 0, "create", "a channel is refused although there is memory");
    w->left += 3;
    for (int k = 0; k < 2; k++) {
        HevTaskChannel *c = a[k];
        spawn ([=] {
            for (uint32_t i = 0; i < n; i++) {
                uint64_t v = w->key (i + 1000 * k);
                self ()->what = "channel write";
                CHECK (hev_task_channel_write (c, &v, 8) == 8, "channel", "a message of thread %d is not accepted", thread_self ());
                turn_no++;
                if (choose (2))
                    yield ();
            }
            w->left--;
        }, rprio ());
    }
    HevTaskChannel *b0 = b[0], *b1 = b[1], *a0 = a[0], *a1 = a[1];
    spawn ([=] {
        HevTaskChannelSelect *s = hev_task_channel_select_new ();
        CHECK (s, "create", "a select is refused although there is memory");
        hev_task_channel_select_add (s, b0);
        hev_task_channel_select_add (s, b1);
        uint32_t got[2] = { 0, 0 };
        for (uint32_t i = 0; i < 2 * n; i++) {
            uint64_t v = 0;
            self ()->what = "select";
            HevTaskChannel *c = hev_task_channel_select_read (s, -1);
            turn_no++;
            mine (w);
            CHECK (c == b0 || c == b1, "channel", "a select of thread %d returns another channel", thread_self ());
            int k = c == b1;
            CHECK (hev_task_channel_read (c, &v, 8) == 8 && v == w->key (got[k] + 1000 * k), "channel", "a channel of thread %d delivers something else", thread_self ());
            got[k]++;
        }
        hev_task_channel_select_del (s, b0);
        hev_task_channel_select_del (s, b1);
        hev_task_channel_select_destroy (s);
        hev_task_channel_destroy (b0);
        hev_task_channel_destroy (b1);
        hev_task_channel_destroy (a0);
        hev_task_channel_destroy (a1);
        w->left--;
    }, rprio ());
}
static void conds (World *w)
{
    uint32_t n = 1 + choose (8);
    auto have = std::make_shared<uint32_t> (0);
    auto c = std::make_shared<HevTaskCond> ();
    hev_task_cond_init (c.get ());
    w->left += 2;
    spawn ([=] {
        for (uint32_t i = 0; i < n; i++) {
            hev_task_mutex_lock (&w->mutex);
            turn_no++;
            ++*have;
            choose (2) ? hev_task_cond_signal (c.get ()) : hev_task_cond_broadcast (c.get ());
            hev_task_mutex_unlock (&w->mutex);
            if (choose (2))
                yield ();
        }
        w->left--;
    }, rprio ());
    spawn ([=] {
        uint32_t got = 0;
        while (got < n) {
            self ()->what = "condition";
            hev_task_mutex_lock (&w->mutex);
            turn_no++;
            while (!*have) {
                hev_task_cond_wait (c.get (), &w->mutex);
                turn_no++;
                CHECK (!w->inside, "mutex", "a condition of thread %d returns without the mutex", thread_self ());
                mine (w);
            }
            got += *have;
            *have = 0;
            hev_task_mutex_unlock (&w->mutex);
        }
        w->left--;
    }, rprio ());
}
struct Callx { HevTaskCall base; World *w; uint64_t v; };
static void calls (World *w, uint32_t n)
{
    for (uint32_t i = 0; i < n; i++) {
        Callx *c = (Callx *)hev_task_call_new (sizeof (Callx), 32768);
        CHECK (c, "create", "a call stack is refused although there is memory");
        c->w = w;
        c->v = w->key (i);
        void *r = hev_task_call_jump (&c->base, [] (HevTaskCall *b) {
            Callx *c = (Callx *)b;
            yield ();
            mine (c->w);
            hev_task_call_set_retval (b, (void *)(uintptr_t)(c->v ^ 1));
        });
        CHECK ((uint64_t)(uintptr_t)r == (w->key (i) ^ 1), "call", "a call of thread %d returns something else", thread_self ());
        hev_task_call_destroy (&c->base);
    }
}
static void joins (World *w)
{
    HevTask *t = hev_task_new (-1);
    CHECK (t, "create", "a task is refused although there is memory");
    int hit = 0, *h = &hit;
    hev_task_ref (t);
    hev_task_run (t, [] (void *p) { hev_task_sleep (1); ++*(int *)p; hev_task_yield (HEV_TASK_YIELD); }, h);
    self ()->what = "join";
    hev_task_join (t);
    turn_no++;
    mine (w);
    CHECK (*h == 1, "join", "a joined task of thread %d has not run", thread_self ());
    hev_task_unref (t);
}
// streams between threads, set up beforehand
struct Cross { int a, b, fa, fb; uint64_t key; uint32_t n; };
static std::vector<Cross> cross;
static std::vector<World *> worlds;

static void cycle (int thr, int cyc)
{
    World *w = new World ();
    worlds.push_back (w);
    w->thr = thr;
    w->cyc = cyc;
    sys_init ();
    if (choose (8) == 7)
        CHECK (hev_task_system_init () < 0, "init", "a second task system starts on the same thread");
    hev_task_mutex_init (&w->mutex);
    uint32_t nt = 1 + choose (5);
    for (uint32_t i = 0; i < nt; i++) {
        uint32_t n = 1 + choose (8);
        switch (choose (15)) {
        case 0: spawn ([=] { sleeps (w, n); }, rprio ()); break;
        case 1: spawn ([=] { yields (w, n * 3); }, rprio ()); break;
        case 2: spawn ([=] { locks (w, n); }, rprio ()); break;
        case 3: spawn ([=] { memory (w, n * 2); }, rprio ()); break;
        case 4: chan_pair (w); break;
        case 5: inner_stream (w); break;
        case 6: spawn ([=] { calls (w, n); }, rprio ()); break;
        case 7: spawn ([=] { joins (w); }, rprio ()); break;
        case 8: relayed (w); break;
        case 9: messages (w); break;
        case 10: selects (w); break;
        case 11: conds (w); break;
        case 12: datagrams (w); break;
        case 13: exact (w); break;
        case 14: connects (w); break;
        }
    }
    if (cyc == 0)
        for (auto &c : cross) {
            if (c.a == thr)
                spawn ([=] { end_of_stream (w, c.fa, true, c.key, c.n); }, rprio ());
            if (c.b == thr)
                spawn ([=] { end_of_stream (w, c.fb, false, c.key, c.n); }, rprio ());
        }
    sys_run ();
    for (auto t : tasks)
        if (t->thr == thread_self ())
            CHECK (t->done, "return", "the task system of thread %d ended although task %d has not", thr, t->id);
    CHECK (w->left == 0, "return", "the task system of thread %d ended although tasks have not", thr);
    sys_fini ();
}
static void worker (int thr, int cycles)
{
    static const uint64_t waits[] = { 0, 1000, 100000, 5000000, 40000000 };
    World w;
    w.thr = thr;
    w.cyc = 15;
    for (int i = 0; i < cycles; i++) {
        uint64_t d = pick (waits);
        if (d)
            pause (1 + noise () % d);
        // memory outside any task system
        if (choose (6) == 5)
            memory (&w, 1 + choose (6), false);
        cycle (thr, i);
        if (choose (6) == 5)
            memory (&w, 1 + choose (6), false);
    }
}
SCENARIO_MT ("P20", systems_in_threads, 10)
{
    machine_random (choose (4));
    mt_begin ();
    port = 0;
    M.alloc_fail_rate = M.sys_fail_rate = 0;
    M.alloc_fail_at = M.sys_fail_at = -1;
    M.preempt = choose (3) ? 10 + choose (200) : 0;
    M.npoints = choose (9);
    static const uint32_t spans[] = { 2000, 20, 100, 500, 10000, 50000 };
    M.point_span = pick (spans);
    set_step_limit (600000);
    at_cleanup ([] { for (auto w : worlds) delete w; worlds.clear (); cross.clear (); });
    Leak lk;
    int nt = 2 + choose (3), cycles = 1 + choose (2);
    R.immune++;
    uint32_t nc = choose (3);
    for (uint32_t i = 0; i < nc; i++) {
        int p[2];
        sim_socketpair (AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, p);
        int a = choose (nt);
        cross.push_back ({ a, (a + 1) % nt, p[0], p[1], noise (), (uint32_t)noise () % 500 });
    }
    R.immune--;
    std::vector<int> ids;
    for (int i = 1; i < nt; i++)
        ids.push_back (thread_spawn ([=] { worker (i, cycles); }));
    arm_access_points ();
    worker (0, cycles);
    for (int id : ids)
        thread_join (id);
    // memory of this thread outside a task system
    hev_task_system_init ();
    hev_task_system_fini ();
    lk.check ("after all threads ended");
    nontrivial ();
}
}
