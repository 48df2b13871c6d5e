// P02 wakeups and readiness events.
#include "w.h"
#include <algorithm>
#include <map>
using namespace w;
namespace p02 {
struct Waiter {
    Task *t = nullptr;
    bool waiting = false;
    bool cause = false;
    uint32_t mail = 0, seen = 0;   // explicit wakeups carry mail
    std::string got;
};
struct Fd {
    int fd = -1;
    int fd2 = -1;                  // a duplicate, registered instead of fd
    FileP ext;
    int owner = -1;                // waiter index or -1
    uint32_t events = 0;
    std::string sent;
    std::string got;
    bool fresh = false;            // registered after the last drain
    bool eof = false, closed = false;
    bool full = false;             // its owner filled it and waits for room
    bool room_edge = false;
    int reg () const { return fd2 >= 0 ? fd2 : fd; }
};
static std::vector<Waiter> ws;
static std::vector<Fd> fds;
static bool stop_all;
static uint32_t moves;

static void check_causes ()
{
    for (auto &x : ws)
        if (x.waiting && x.cause)
            CHECK (hev_task_get_state (x.t->t) == HEV_TASK_RUNNING, "lost", "task %d was woken or had an event but is not runnable", x.t->id);
}
static void drain (Fd &f)
{
    char b[64];
    for (;;) {
        ssize_t n = sim_read (f.fd, b, 1 + noise () % sizeof b);
        if (n > 0) {
            f.got.append (b, n);
            continue;
        }
        if (n == 0)
            f.eof = true;
        break;
    }
    f.fresh = false;
}
static int unregistered_ops (Fd &f, HevTask *t)
{
    // operations on something not registered must be refused
    if (choose (2))
        CHECK (hev_task_mod_fd (t, f.reg (), POLLIN) < 0, "registration", "modifying a registration that does not exist succeeds");
    else
        CHECK (hev_task_del_fd (t, f.reg ()) < 0, "registration", "removing a registration that does not exist succeeds");
    return 0;
}
static void reg (Fd &f, int owner, uint32_t ev)
{
    f.owner = owner;
    f.events = ev;
    CHECK (hev_task_add_fd (ws[owner].t->t, f.reg (), ev) == 0, "registration", "registering a descriptor failed");
}
static void reg_op ()
{
    static const uint32_t evs[] = { POLLIN, POLLIN | POLLOUT, POLLOUT, POLLIN, POLLIN | POLLOUT, POLLOUT, 0 };
    if (fds.empty ())
        return;
    Fd &f = fds[choose (fds.size ())];
    if (f.closed)
        return;
    moves++;
    switch (choose (5)) {
    case 0: {  // modify
        if (f.owner < 0) { unregistered_ops (f, hev_task_self ()); break; }
        uint32_t ev = pick (evs);
        TR ("fd %d: modify for task %d events %x", f.reg (), ws[f.owner].t->id, ev);
        CHECK (hev_task_mod_fd (ws[f.owner].t->t, f.reg (), ev) == 0, "registration", "modifying a registration failed");
        f.events = ev;
        f.fresh = true;
        break; }
    case 1: {  // move by modification
        if (f.owner < 0) break;
        int n = choose (ws.size ());
        uint32_t ev = pick (evs);
        TR ("fd %d: re-register to task %d events %x", f.reg (), ws[n].t->id, ev);
        CHECK (hev_task_mod_fd (ws[n].t->t, f.reg (), ev) == 0, "registration", "moving a registration failed");
        f.owner = n;
        f.events = ev;
        f.fresh = true;
        break; }
    case 2: {  // move by removal
        if (f.owner < 0) break;
        CHECK (hev_task_del_fd (hev_task_self (), f.reg ()) == 0, "registration", "removing a registration failed");
        int n = choose (ws.size ());
        uint32_t ev = pick (evs);
        TR ("fd %d: removed, then registered to task %d events %x", f.reg (), ws[n].t->id, ev);
        f.owner = -1;
        if (choose (2))
            yield ();
        if (f.owner < 0 && !f.closed)
            reg (f, n, ev);
        f.fresh = true;
        break; }
    case 3:    // duplicate registration
        if (f.owner < 0) break;
        CHECK (hev_task_add_fd (ws[f.owner].t->t, f.reg (), POLLIN) < 0, "registration", "registering the same descriptor twice succeeds");
        break;
    case 4:
        if (f.owner >= 0) {
            TR ("fd %d: removed", f.reg ());
            CHECK (hev_task_del_fd (hev_task_self (), f.reg ()) == 0, "registration", "removing a registration failed");
            f.owner = -1;
        } else
            reg (f, choose (ws.size ()), pick (evs)), f.fresh = true;
        break;
    }
}
static void waiter (int i)
{
    while (!stop_all) {
        for (auto &f : fds)
            if (f.owner == i && !f.closed)
                drain (f);
        ws[i].seen = ws[i].mail;
        if (stop_all)
            break;
        if (choose (16) == 0)
            hev_task_wakeup (hev_task_self ());     // already runnable: no effect
        if (choose (10) == 0) {
            reg_op ();
            continue;
        }
        if (choose (8) == 0) {
            yield ();
            check_causes ();
            continue;
        }
        ws[i].waiting = true;
        ws[i].cause = false;
        ws[i].t->what = "wait";
        wait_io ();
        ws[i].waiting = false;
        CHECK (ws[i].cause, "invented", "task %d resumed although nobody woke it and no event was for it", ws[i].t->id);
        check_causes ();
    }
}
static void wake (int i)
{
    HevTaskState s = hev_task_get_state (ws[i].t->t);
    if (s == HEV_TASK_STOPPED)
        return;
    ws[i].mail++;
    if (ws[i].waiting)
        ws[i].cause = true;
    uint32_t n = 1 + (choose (4) == 0);
    while (n--)
        hev_task_wakeup (ws[i].t->t);
    CHECK (hev_task_get_state (ws[i].t->t) == HEV_TASK_RUNNING, "lost", "task %d was woken but is not runnable", ws[i].t->id);
}
static void ext_op ()
{
    if (fds.empty ())
        return;
    Fd &f = fds[choose (fds.size ())];
    if (f.closed)
        return;
    switch (choose (6)) {
    case 0: case 1: case 2: case 3: {
        char b[32];
        size_t n = range (1, 32);
        for (size_t k = 0; k < n; k++)
            b[k] = (char)noise ();
        n = ext_write (f.ext, b, n);
        f.sent.append (b, n);
        break; }
    case 4:
        ext_read (f.ext, 1 + choose (100));
        break;
    case 5:
        if (choose (4) == 0)
            ext_shut_write (f.ext);
        break;
    }
}
SCENARIO ("P02", wake, 8)
{
    machine_random (choose (4));
    at_cleanup ([] { ws.clear (); fds.clear (); });
    ws.clear ();
    fds.clear ();
    stop_all = false;
    moves = 0;
    Leak lk;
    sys_init ();
    int nw = range (1, 6), nf = range (0, 8), ne = range (0, 40);
    for (int i = 0; i < nf; i++) {
        Fd f;
        StreamOpt o;
        random_stream_opt (o);
        f.ext = ext_stream (&f.fd, o);
        if (choose (5) == 0)
            f.fd2 = sim_dup (f.fd);
        fds.push_back (f);
    }
    ws.resize (nw);
    on_event = [] (int fd, uint32_t m) {
        for (auto &f : fds)
            if (!f.closed && f.reg () == fd) {
                CHECK (f.owner >= 0, "registration", "an event for descriptor %d arrives although it is not registered", fd);
                CHECK (m & (f.events | POLLERR | POLLHUP), "registration", "an event of a kind not asked for arrives for descriptor %d", fd);
                if (ws[f.owner].waiting)
                    ws[f.owner].cause = true;
            }
    };
    for (int i = 0; i < nw; i++)
        ws[i].t = spawn ([i] { waiter (i); }, rprio ());
    for (auto &f : fds)
        if (choose (5))
            reg (f, choose (nw), POLLIN | (choose (3) ? 0 : POLLOUT));
    // what happens outside, often at the same instant
    uint64_t t = now ();
    for (int i = 0; i < ne; i++) {
        if (choose (3))
            t += noise () % (choose (2) ? 50000 : 20000000);
        at (t, ext_op);
    }
    uint32_t nk = choose (4);
    for (uint32_t k = 0; k < nk; k++) {
        uint32_t rounds = range (1, 25);
        spawn ([rounds] {
            for (uint32_t r = 0; r < rounds; r++) {
                uint32_t c = choose (3);
                if (c < 2)
                    for (uint32_t n = 1 + choose (3); n; n--)
                        wake (choose (ws.size ()));
                if (c == 2)
                    reg_op ();
                if (choose (3))
                    yield ();
                else
                    hev_task_usleep (1 + noise () % 8000);
                check_causes ();
            }
        }, rprio ());
    }
    auto settle = [] {
        check_causes ();
        for (auto &x : ws)
            CHECK (x.seen == x.mail, "lost", "task %d never saw the last wakeup sent to it", x.t->id);
        for (auto &f : fds)
            if (f.owner >= 0 && !f.closed && (f.events & POLLIN)) {
                FileP x = file (f.fd);
                CHECK (x->rx->q.empty (), "lost", "descriptor %d is readable, but the task registered for it was not resumed", f.fd);
                CHECK (f.got == f.sent, "data", "bytes read do not match bytes sent");
                if (x->rx->fin)
                    CHECK (f.eof, "lost", "end of stream on descriptor %d was not noticed", f.fd);
            }
    };
    at_quiet ([settle, ne] {
        settle ();
        // now, in quiet, every single further cause must work
        for (int k = 0; k < 3 && !ws.empty (); k++)
            wake (choose (ws.size ()));
        for (int i = 0; i < 3; i++)
            ext_op ();
    });
    at_quiet ([settle] {
        settle ();
        stop_all = true;
        for (size_t i = 0; i < ws.size (); i++)
            wake (i);
    });
    sys_run ();
    for (auto &f : fds) {
        f.closed = true;
        sim_close (f.fd);
        if (f.fd2 >= 0)
            sim_close (f.fd2);
    }
    sys_fini ();
    lk.check ("after fini");
    note ("%d waiters, %d descriptors, %d outside events, %u registration changes", nw, nf, ne, moves);
    if (moves)
        probe ("registration changed");
    nontrivial ();
}
// writability: a task fills a descriptor and waits for room
SCENARIO ("P02", room, 2)
{
    machine_random (choose (4));
    sys_init ();
    int n = range (1, 5);
    uint64_t total = 0;
    static std::vector<FileP> ex;
    ex.clear ();
    at_cleanup ([] { ex.clear (); });
    std::vector<int> fd (n);
    for (int i = 0; i < n; i++) {
        StreamOpt o;
        random_stream_opt (o);
        if (o.cap_ab > 256)
            o.cap_ab = 256;
        FileP e = ext_stream (&fd[i], o);
        ex.push_back (e);
        uint32_t want = range (1, 900);
        total += want;
        int f = fd[i];
        e->rx->on_r = [e] { after (noise () % 300000, [e] { ext_read (e, 1 + noise () % 80); if (e->rx->q.size ()) e->rx->on_r (); }); };
        spawn ([f, want] {
            uint32_t left = want;
            hev_task_add_fd (hev_task_self (), f, choose (2) ? POLLOUT : POLLOUT | POLLIN);
            self ()->what = "waiting for room";
            while (left) {
                char b[100] = { 0 };
                ssize_t k = sim_write (f, b, std::min<uint32_t> (left, sizeof b));
                if (k > 0)
                    left -= k;
                else
                    wait_io ();
            }
            hev_task_del_fd (hev_task_self (), f);
        }, rprio ());
    }
    maybe_disturbers ();
    sys_run ();
    uint64_t sum = 0;
    for (auto &e : ex)
        sum += e->rx->in;
    CHECK (sum == total, "data", "bytes lost");
    for (int i = 0; i < n; i++)
        sim_close (fd[i]);
    sys_fini ();
    note ("%d writers, %llu bytes", n, (unsigned long long)total);
    nontrivial ();
}
// events for waiting tasks while others never block
SCENARIO ("P02", busy, 2)
{
    machine_random (choose (4));
    M.evdelay = M.eintr = 0;
    set_step_limit (2000000);
    sys_init ();
    static std::vector<FileP> ex;
    static std::vector<uint64_t> since;        // turns of others since the event
    static uint32_t left;
    at_cleanup ([] { ex.clear (); since.clear (); });
    int n = range (1, 4), nb = range (1, 6);
    uint32_t each = 1 + choose (6);
    ex.assign (n, nullptr);
    since.assign (n, 0);
    left = n;
    for (int i = 0; i < n; i++) {
        int fd;
        ex[i] = ext_pipe_in (&fd, 64);
        bool wk = choose (3) == 2;             // woken by a busy task instead
        spawn ([=] {
            HevTask *me = hev_task_self ();
            CHECK (hev_task_add_fd (me, fd, POLLIN) == 0, "registration", "registering a descriptor failed");
            self ()->what = "waiting beside busy tasks";
            for (uint32_t k = 0; k < each; k++) {
                char c;
                // the next event may come at any turn of the others
                FileP e = ex[i];
                after (1 + noise () % (choose (2) ? 3000 : 3000000), [=] { ext_write (e, "x", 1); since[i] = 1; });
                while (sim_read (fd, &c, 1) != 1)
                    wait_io ();
                since[i] = 0;
                if (wk)
                    yield ();
            }
            hev_task_del_fd (me, fd);
            sim_close (fd);
            left--;
        }, 1 + choose (15));
    }
    for (int i = 0; i < nb; i++)
        spawn ([=] {
            for (uint32_t k = 0; k < 20000 && left; k++) {
                for (size_t j = 0; j < since.size (); j++)
                    if (since[j])
                        CHECK (++since[j] < 40 * (n + nb) + 100, "lost", "an event is not noticed while other tasks keep running");
                yield ();
            }
            CHECK (!left || now () < 5000000, "lost", "a task that waits for events is not resumed while other tasks keep running");
        }, 1 + choose (15));
    sys_run ();
    sys_fini ();
    note ("%d waiters beside %d busy tasks", n, nb);
    nontrivial ();
}
// more descriptors ready at the same instant than fit one poll of the kernel
SCENARIO ("P02", flood, 1)
{
    machine_random (choose (2));
    uint32_t n = choose (6) ? range (2, 60) : range (1000, 2200);
    uint32_t per = 1 + choose (5);
    set_step_limit (6000000);
    sys_init ();
    static std::vector<int> fd;
    static std::vector<FileP> ex;
    static std::vector<int> seen;
    static uint32_t unready;
    unready = n;
    uint64_t wait = 1 + choose (3) * 10000000;
    fd.assign (n, -1);
    ex.assign (n, nullptr);
    seen.assign (n, 0);
    at_cleanup ([] { fd.clear (); ex.clear (); seen.clear (); });
    for (uint32_t i = 0; i < n; i++)
        ex[i] = ext_pipe_in (&fd[i], 64);
    for (uint32_t i = 0; i < n; i += per) {
        uint32_t lo = i, hi = std::min (n, i + per);
        spawn ([lo, hi, wait] {
            uint32_t left = hi - lo;
            for (uint32_t k = lo; k < hi; k++)
                hev_task_add_fd (hev_task_self (), fd[k], POLLIN);
            // everything becomes ready once everybody waits for it
            if ((unready -= hi - lo) == 0)
                after (wait, [] {
                    for (auto &e : ex)
                        ext_write (e, "x", 1);
                });
            self ()->what = "waiting for one of its descriptors";
            while (left) {
                for (uint32_t k = lo; k < hi; k++) {
                    char c;
                    if (!seen[k] && sim_read (fd[k], &c, 1) == 1) {
                        seen[k] = 1;
                        left--;
                        hev_task_del_fd (hev_task_self (), fd[k]);
                    }
                }
                if (left)
                    hev_task_yield (HEV_TASK_WAITIO);
            }
        }, HEV_TASK_PRIORITY_DEFAULT, 16384);
    }
    sys_run ();
    for (uint32_t i = 0; i < n; i++)
        sim_close (fd[i]);
    sys_fini ();
    if (n > 1000)
        probe ("more than 1000 descriptors ready at once");
    note ("%u descriptors ready at once", n);
    nontrivial ();
}
}
