// P17 name lookups.
#include "w_stream.h"
#include <hev-task-dns.h>
#include <netdb.h>
#include <netinet/in.h>
#include <arpa/inet.h>
extern "C" void sim_freeaddrinfo (struct addrinfo *);
using namespace w;
namespace p17 {
static int serial;
static std::map<std::string, int> asked;     // query -> how often the resolver must see it
static bool failing;                         // set-up calls may be refused
static int cycle_no;
struct Thr { bool lookup = false; uint64_t ticks = 0; int tickers = 0; };
static std::map<int, Thr> thr;
static uint64_t refusals ()
{
    return R.faults[F_ALLOC_FAIL] + R.faults[F_MMAP_FAIL] + R.faults[F_FD_FAIL] + R.faults[F_SETUP_FAIL] + R.faults[F_THREAD_FAIL];
}
static int errno_for (const std::string &q) { return 1 + dns_hash (q) % 120; }
static const int errs[] = { EAI_NONAME, EAI_AGAIN, EAI_FAIL, EAI_SYSTEM, EAI_MEMORY, EAI_SERVICE };
static uint32_t lookups (const std::string &q)
{
    uint32_t n = 0;
    for (auto &l : D.log)
        n += l == q;
    return n;
}
// while a lookup takes long other tasks of the thread go on
static void fair (uint64_t t0, uint64_t ticks0, int tickers)
{
    Thr &h = thr[thread_self ()];
    if (M.stall == 0 && M.tick <= 2 && tickers && h.tickers == tickers && now () - t0 > 1000000000) {
        probe ("long-lookup-with-others");
        CHECK (h.ticks > ticks0, "stopped", "no other task of the thread ran during a lookup of %lu ms", (unsigned long)((now () - t0) / 1000000));
    }
}
static void resumed (const std::string &key)
{
    if (M.stall == 0 && M.tick <= 2)
        CHECK (now () <= D.ended[key] + 500000000, "resume", "the asking task goes on %lu ms after its answer was there", (unsigned long)((now () - D.ended[key]) / 1000000));
}
// returns true if the lookup could not be set up
static bool refused (int r, int en, uint64_t rf0, uint32_t seen, const char *what)
{
    if (seen)
        return false;
    CHECK (failing && refusals () > rf0, "answer", "%s returns %d (errno %d) without having asked the resolver", what, r, en);
    CHECK (r == EAI_SYSTEM && en, "answer", "%s that could not be set up returns %d (errno %d)", what, r, en);
    probe ("lookup-not-set-up");
    return true;
}
static uint64_t rf_run;
static void host_lookup ()
{
    int id = serial++;
    char node[80], serv[20];
    snprintf (node, sizeof node, "n%d.%c", id, (char)('a' + noise () % 26));
    snprintf (serv, sizeof serv, "s%u", (unsigned)(noise () % 1000));
    bool has_serv = choose (3) != 2, has_hints = choose (2), has_node = choose (6) != 5;
    if (!has_node) {
        // only a service, as for a listening address
        node[0] = 0;
        has_serv = true;
        snprintf (serv, sizeof serv, "s%d.%u", id, (unsigned)(noise () % 1000));
    }
    struct addrinfo hints, *res = (struct addrinfo *)0x1234;
    memset (&hints, 0, sizeof hints);
    hints.ai_socktype = 1 + id % 5;
    hints.ai_protocol = id % 17;
    hints.ai_flags = id % 3;
    std::string key = std::string (node) + "|" + (has_serv ? serv : "");
    int err = 0;
    if (choose (4) == 3)
        D.outcome[key] = err = pick (errs);
    uint64_t t0 = now (), ticks0 = thr[thread_self ()].ticks;
    int tickers = thr[thread_self ()].tickers;
    TR ("task looks up %s", key.c_str ());
    self ()->what = "getaddrinfo";
    Task *me = self ();
    errno = 77;
    int r = hev_task_dns_getaddrinfo (has_node ? node : NULL, has_serv ? serv : NULL, has_hints ? &hints : NULL, &res);
    int en = errno;
    turn_no++;
    mix (0x75, me->id);
    CHECK (self () == me, "self", "another task is current after a lookup");
    me->what = "";
    TR ("lookup of %s returns %d", key.c_str (), r);
    uint32_t seen = lookups ("gai|" + key);
    if (refused (r, en, rf_run, seen, "getaddrinfo"))
        return;
    CHECK (seen == 1, "once", "one lookup asked the resolver %u times", seen);
    CHECK (D.ended.count (key), "early", "getaddrinfo returned before the resolver had the answer");
    resumed (key);
    fair (t0, ticks0, tickers);
    CHECK (r == err, "answer", "getaddrinfo returns %d although the resolver answered %d", r, err);
    if (err) {
        if (err == EAI_SYSTEM)
            CHECK (en == errno_for (key), "answer", "getaddrinfo leaves errno %d instead of %d", en, errno_for (key));
        nontrivial ();
        return;
    }
    int cnt = 1 + dns_hash (node) % 3, k = 0;
    for (struct addrinfo *a = res; a; a = a->ai_next, k++) {
        struct sockaddr_in *sa = (struct sockaddr_in *)a->ai_addr;
        CHECK (k < cnt && sa->sin_addr.s_addr == htonl ((uint32_t)dns_hash (node) + k) && sa->sin_port == htons ((uint16_t)dns_hash_serv (has_serv ? serv : NULL)), "answer",
               "getaddrinfo hands over the answer to another query");
        CHECK (a->ai_socktype == (has_hints ? hints.ai_socktype : SOCK_STREAM) && a->ai_protocol == (has_hints ? hints.ai_protocol : 0) && a->ai_flags == (has_hints ? hints.ai_flags : 0), "answer",
               "getaddrinfo passed other hints to the resolver");
    }
    CHECK (k == cnt, "answer", "getaddrinfo hands over %d addresses instead of %d", k, cnt);
    sim_freeaddrinfo (res);
    nontrivial ();
}
static void service_lookup ()
{
    int id = serial++;
    struct sockaddr_in sa;
    memset (&sa, 0, sizeof sa);
    sa.sin_family = AF_INET;
    sa.sin_port = htons (id);
    sa.sin_addr.s_addr = htonl (noise ());
    socklen_t al = choose (4) == 3 ? 8 + id % 8 : sizeof sa;
    int flags = id % 7;
    std::string key ((const char *)&sa, al), host (noise () % 4 == 0 ? 5 : 64, (char)0x44), serv (noise () % 4 == 0 ? 3 : 40, (char)0x44);
    bool has_serv = choose (3) != 2, has_host = !has_serv || choose (5) != 4;
    socklen_t hl = host.size () - 2, sl = serv.size () - 2;
    int err = 0;
    if (choose (4) == 3)
        D.outcome[key] = err = pick (errs);
    char hb[64], sb[64];
    snprintf (hb, sizeof hb, "h%llx-%d", (unsigned long long)dns_hash (key), flags);
    snprintf (sb, sizeof sb, "s%llx", (unsigned long long)dns_hash (key) & 0xffff);
    if (!err && ((has_host && strlen (hb) + 1 > hl) || (has_serv && strlen (sb) + 1 > sl)))
        err = EAI_OVERFLOW;
    uint64_t t0 = now (), ticks0 = thr[thread_self ()].ticks;
    int tickers = thr[thread_self ()].tickers;
    Task *me = self ();
    me->what = "getnameinfo";
    errno = 77;
    int r = hev_task_dns_getnameinfo ((struct sockaddr *)&sa, al, has_host ? &host[0] : NULL, has_host ? hl : 0, has_serv ? &serv[0] : NULL, has_serv ? sl : 0, flags);
    int en = errno;
    turn_no++;
    mix (0x75, me->id);
    CHECK (self () == me, "self", "another task is current after a lookup");
    me->what = "";
    uint32_t seen = lookups ("gni|" + key);
    if (refused (r, en, rf_run, seen, "getnameinfo"))
        return;
    CHECK (seen == 1, "once", "one lookup asked the resolver %u times", seen);
    CHECK (D.ended.count (key), "early", "getnameinfo returned before the resolver had the answer");
    resumed (key);
    fair (t0, ticks0, tickers);
    CHECK (r == err, "answer", "getnameinfo returns %d although the resolver answered %d", r, err);
    if (err == EAI_SYSTEM)
        CHECK (en == errno_for (key), "answer", "getnameinfo leaves errno %d instead of %d", en, errno_for (key));
    if (!err) {
        if (has_host)
            CHECK (!strcmp (host.c_str (), hb), "answer", "getnameinfo hands over the answer to another query");
        if (has_serv)
            CHECK (!strcmp (serv.c_str (), sb), "answer", "getnameinfo hands over the service of another query");
    }
    CHECK (host[hl] == 0x44 && host[hl + 1] == 0x44 && serv[sl] == 0x44 && serv[sl + 1] == 0x44, "memory", "getnameinfo wrote beyond the given buffer");
    nontrivial ();
}
static void looker (uint32_t n)
{
    for (uint32_t i = 0; i < n; i++) {
        switch (choose (5)) {
        case 1: yield (); break;
        case 2: hev_task_sleep (choose (30)); turn_no++; break;
        }
        if (choose (3) == 2)
            service_lookup ();
        else
            host_lookup ();
    }
}
static void ticker (uint32_t n)
{
    Thr &h = thr[thread_self ()];
    h.tickers++;
    for (uint32_t i = 0; i < n; i++) {
        switch (choose (3)) {
        case 0: hev_task_sleep (5 + noise () % 200); turn_no++; break;
        case 1: hev_task_usleep (noise () % 3000); turn_no++; break;
        case 2: yield (); break;
        }
        h.ticks++;
    }
    h.tickers--;
}
// one task system from start to end
static void system_cycle (uint32_t max_lookers)
{
    R.immune++;
    sys_init ();
    R.immune--;
    uint32_t nl = 1 + choose (max_lookers), nt = choose (3);
    for (uint32_t i = 0; i < nl; i++) {
        uint32_t k = 1 + choose (3);
        spawn ([k] { looker (k); }, rprio ());
    }
    for (uint32_t i = 0; i < nt; i++) {
        uint32_t k = 5 + choose (60);
        spawn ([k] { ticker (k); }, rprio ());
    }
    if (choose (4) == 3)
        disturber (range (1, 25));
    sys_run ();
    for (auto t : tasks)
        if (t->thr == thread_self ())
            CHECK (t->done, "return", "the task system ended although task %d has not", t->id);
    sys_fini ();
}
static void worker (int cycles, int max_lookers)
{
    static const uint64_t waits[] = { 0, 1000, 1000000, 100000000, 3000000000ull };
    for (int i = 0; i < cycles; i++) {
        uint64_t d = pick (waits);
        if (d)
            pause (1 + noise () % d);
        system_cycle (max_lookers);
    }
}
static void setup ()
{
    serial = 0;
    failing = false;
    thr.clear ();
    D.delay = choose (7);
    D.sys_errno = errno_for;
    set_step_limit (400000);
    at_cleanup ([] { D = Resolver (); thr.clear (); });
    rf_run = refusals ();
}
static void round (uint32_t nt, int cycles, int lookers)
{
    std::vector<int> ids;
    for (uint32_t i = 1; i < nt; i++)
        ids.push_back (thread_spawn ([=] { worker (cycles, lookers); }));
    arm_access_points ();
    worker (cycles, lookers);
    for (int id : ids)
        thread_join (id);
    pause (10000000);
}
static void refuse ()
{
    static const uint32_t rates[] = { 20, 60, 150 };
    failing = true;
    if (choose (2)) {
        M.sys_fail_at = R.syscalls_fallible + choose (14);
        M.sys_fail_n = 1 + choose (3);
    } else if (choose (2))
        M.sys_fail_rate = pick (rates);
    if (choose (3) == 2) {
        M.alloc_fail_at = R.allocs + choose (60);
        M.alloc_fail_n = 1 + choose (2);
    }
}
static void grant ()
{
    M.sys_fail_at = M.alloc_fail_at = -1;
    M.sys_fail_rate = M.alloc_fail_rate = 0;
}
// lookups of one or several threads
SCENARIO_MT ("P17", lookups_threads, 5)
{
    machine_random (choose (4));
    mt_begin ();
    setup ();
    grant ();
    M.preempt = choose (3) ? 10 + choose (120) : 0;
    M.npoints = choose (7);
    static const uint32_t spans[] = { 2000, 20, 100, 500, 10000 };
    M.point_span = pick (spans);
    uint32_t nt = 1 + choose (3), cycles = 1 + choose (2), lookers = 1 + choose (4);
    if (nt > 1)
        probe ("several-threads");
    round (nt, cycles, lookers);
    // what remains now belongs to the helper: further rounds leave nothing
    if (choose (3) == 2) {
        Leak lk;
        round (nt, 1, lookers);
        lk.check ("after another round of lookups");
        probe ("leak-checked");
    }
}
// task systems that end right after their only lookup, again and again
SCENARIO_MT ("P17", lookups_shutdown, 3)
{
    machine_random (choose (4));
    mt_begin ();
    setup ();
    grant ();
    M.preempt = 60 + choose (190);
    M.npoints = choose (7);
    static const uint32_t spans[] = { 2000, 20, 100, 500, 10000 };
    M.point_span = pick (spans);
    if (choose (2))
        D.delay = 0;
    uint32_t nt = 1 + choose (3);
    std::vector<int> ids;
    auto one = [] {
        uint32_t n = 1 + choose (3);
        for (uint32_t i = 0; i < n; i++) {
            R.immune++;
            sys_init ();
            R.immune--;
            spawn ([] { host_lookup (); });
            sys_run ();
            sys_fini ();
        }
    };
    for (uint32_t i = 1; i < nt; i++)
        ids.push_back (thread_spawn (one));
    arm_access_points ();
    one ();
    for (int id : ids)
        thread_join (id);
    pause (10000000);
}
// set-up calls of the helper are refused, then no more
SCENARIO_MT ("P17", lookups_refused, 3)
{
    machine_random (choose (4));
    mt_begin ();
    setup ();
    grant ();
    M.preempt = choose (3) ? 10 + choose (120) : 0;
    uint32_t nt = 1 + choose (2), lookers = 1 + choose (3);
    refuse ();
    round (nt, 1, lookers);
    grant ();
    failing = false;
    size_t n0 = D.log.size ();
    round (nt, 1, lookers);
    CHECK (D.log.size () > n0, "recovery", "lookups do not work after refusals stopped");
    Leak lk;
    refuse ();
    round (nt, 1, lookers);
    grant ();
    lk.check ("after refused lookups");
}
}
