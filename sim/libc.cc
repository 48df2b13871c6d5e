// libc entry points of the library other than descriptors: memory, threads,
// resolver, process level calls.
#include "kernel.h"
#include <algorithm>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <netdb.h>
#include <netinet/in.h>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>

using namespace sim;

extern "C" {
void sys_enter (const char *n);
long sys_leave (const char *n, int fd, long r, int e);
bool sys_refused (int k);

// ------------------------------------------------------------ memory
void *sim_malloc (size_t n)
{
    thread_point ();
    if (alloc_fault (false)) { errno = ENOMEM; return NULL; }
    return heap_alloc (n);
}
void *sim_calloc (size_t a, size_t b)
{
    size_t n;
    thread_point ();
    if (__builtin_mul_overflow (a, b, &n) || alloc_fault (false)) { errno = ENOMEM; return NULL; }
    void *p = heap_alloc (n);
    if (p) memset (p, 0, n);
    return p;
}
void *sim_realloc (void *p, size_t n)
{
    thread_point ();
    if (p && !n) { heap_free (p); return NULL; }
    if (alloc_fault (false)) { errno = ENOMEM; return NULL; }
    return heap_realloc (p, n);
}
void *sim_reallocarray (void *p, size_t n, size_t k)
{
    size_t t;
    if (__builtin_mul_overflow (n, k, &t)) { errno = ENOMEM; return NULL; }
    return sim_realloc (p, t);
}
void sim_free (void *p) { thread_point (); heap_free (p); }
int sim_posix_memalign (void **r, size_t al, size_t n)
{
    if (alloc_fault (false)) return ENOMEM;
    *r = heap_alloc (n, al);
    return *r ? 0 : ENOMEM;
}
void *sim_aligned_alloc (size_t al, size_t n)
{
    if (alloc_fault (false)) { errno = ENOMEM; return NULL; }
    return heap_alloc (n, al);
}
size_t sim_malloc_usable_size (void *p) { return p ? heap_size (p) : 0; }
char *sim_strdup (const char *s)
{
    char *p = (char *)sim_malloc (strlen (s) + 1);
    return p ? strcpy (p, s) : NULL;
}
char *sim_strndup (const char *s, size_t n)
{
    size_t l = strnlen (s, n);
    char *p = (char *)sim_malloc (l + 1);
    if (!p) return NULL;
    memcpy (p, s, l);
    p[l] = 0;
    return p;
}
void *sim_memcpy (void *d, const void *s, size_t n)
{
    check_mem (s, n, "read");
    check_mem (d, n, "write");
    return memmove (d, s, n);
}
void *sim_memmove (void *d, const void *s, size_t n)
{
    check_mem (s, n, "read");
    check_mem (d, n, "write");
    return memmove (d, s, n);
}
void *sim_memset (void *d, int c, size_t n)
{
    check_mem (d, n, "write");
    return memset (d, c, n);
}
void *sim___memcpy_chk (void *d, const void *s, size_t n, size_t) { return sim_memcpy (d, s, n); }
void *sim___memmove_chk (void *d, const void *s, size_t n, size_t) { return sim_memmove (d, s, n); }
void *sim___memset_chk (void *d, int c, size_t n, size_t) { return sim_memset (d, c, n); }
void *sim_mmap (void *a, size_t n, int prot, int flags, int fd, off_t o)
{
    (void)a;
    sys_enter ("mmap");
    if (!n || (o & 4095) || !(flags & (MAP_PRIVATE | MAP_SHARED))) { sys_leave ("mmap", fd, -1, EINVAL); return MAP_FAILED; }
    if (!(flags & MAP_ANONYMOUS)) { sys_leave ("mmap", fd, -1, ENODEV); return MAP_FAILED; }
    if (alloc_fault (true)) { sys_leave ("mmap", -1, -1, ENOMEM); return MAP_FAILED; }
    void *p = map_alloc (n);
    if (!p) { sys_leave ("mmap", -1, -1, ENOMEM); return MAP_FAILED; }
    if (prot != (PROT_READ | PROT_WRITE)) map_protect (p, n, prot);
    sys_leave ("mmap", -1, 0, 0);
    return p;
}
int sim_munmap (void *p, size_t n)
{
    sys_enter ("munmap");
    int r = map_free (p, n);
    return sys_leave ("munmap", -1, r, errno);
}
int sim_mprotect (void *p, size_t n, int prot)
{
    sys_enter ("mprotect");
    if (sys_refused (F_SETUP_FAIL)) return sys_leave ("mprotect", -1, -1, ENOMEM);
    int r = map_protect (p, n, prot);
    return sys_leave ("mprotect", -1, r, errno);
}
int sim_madvise (void *, size_t, int) { return 0; }
int sim_mlock (const void *, size_t) { return 0; }

// ------------------------------------------------------------ process
}
namespace sim {
struct sigaction acts[64];            // of the process
std::map<int, stack_t> alts;          // of the threads
void signal_reset () { memset (acts, 0, sizeof acts); alts.clear (); diag.clear (); out_text.clear (); fault_hook = nullptr; abort_hook = nullptr; }
void signal_ledger (Ledger &l)
{
    l.signals = l.altstacks = 0;
    for (int i = 0; i < 64; i++)
        l.signals = l.signals * 31 + (size_t)acts[i].sa_sigaction;
    for (auto &a : alts)
        l.altstacks += a.second.ss_sp && !(a.second.ss_flags & SS_DISABLE);
}
}
static void ending (const char *why)
{
    if (abort_hook)
        abort_hook (why);
}
static void said (FILE *f, const char *s, size_t n)
{
    if (f == stderr)
        diag.append (s, n);
    if (out_text.size () < 1000000)
        out_text.append (s, n);
}
static int vdiag (FILE *f, const char *fmt, va_list ap)
{
    char b[400];
    int n = vsnprintf (b, sizeof b, fmt, ap);
    said (f, b, strlen (b));
    return n;
}
#define DIAG(f) { va_list ap; va_start (ap, fmt); int n = vdiag (f, fmt, ap); va_end (ap); return n; }
extern "C" {
void sim_abort () { ending ("the library aborts the process"); fail ("abort", "the library aborts the process"); }
void sim_exit (int) { ending ("the library exits the process"); fail ("abort", "the library exits the process"); }
void sim___assert_fail (const char *e, const char *, unsigned, const char *)
{ ending (e); fail ("abort", "assertion of the library failed: %s", e); }
void sim___stack_chk_fail () { fail ("memory", "stack smashing detected by the compiler's guard"); }
void sim___fortify_fail (const char *) { fail ("memory", "buffer overflow detected by libc"); }
int sim_kill (int, int) { return 0; }
int sim_raise (int s) { ending ("raise"); fail ("abort", "the library raises signal %d", s); }
int sim_sigaltstack (const stack_t *n, stack_t *o)
{
    sys_enter ("sigaltstack");
    stack_t &a = alts[thread_self ()];
    if (!a.ss_sp)
        a.ss_flags = SS_DISABLE;
    if (o)
        *o = a;
    if (n && !(n->ss_flags & SS_DISABLE) && sys_refused (F_SETUP_FAIL))
        return sys_leave ("sigaltstack", -1, -1, ENOMEM);
    if (n) {
        if (n->ss_flags & SS_DISABLE) {
            memset (&a, 0, sizeof a);
            a.ss_flags = SS_DISABLE;
        } else {
            check_mem (n->ss_sp, n->ss_size, "alternate signal stack");
            a = *n;
        }
    }
    return sys_leave ("sigaltstack", -1, 0, 0);
}
int sim_sigaction (int s, const struct sigaction *n, struct sigaction *o)
{
    sys_enter ("sigaction");
    struct sigaction old = acts[s & 63];
    if (n)
        acts[s & 63] = *n;
    if (o)
        *o = old;
    return sys_leave ("sigaction", s, 0, 0);
}
void *sim_signal (int, void *) { return NULL; }
int sim_sigprocmask (int, const sigset_t *, sigset_t *) { return 0; }
int sim_pthread_sigmask (int, const sigset_t *, sigset_t *) { return 0; }
int sim_fprintf (FILE *f, const char *fmt, ...) DIAG (f)
int sim___fprintf_chk (FILE *f, int, const char *fmt, ...) DIAG (f)
int sim_dprintf (int, const char *fmt, ...) DIAG (stderr)
int sim___dprintf_chk (int, int, const char *fmt, ...) DIAG (stderr)
int sim_printf (const char *fmt, ...) DIAG (stdout)
int sim___printf_chk (int, const char *fmt, ...) DIAG (stdout)
int sim_vfprintf (FILE *f, const char *fmt, va_list ap) { return vdiag (f, fmt, ap); }
size_t sim_fwrite (const void *p, size_t s, size_t n, FILE *f) { said (f, (const char *)p, s * n); return n; }
int sim_fputs (const char *s, FILE *f) { said (f, s, strlen (s)); return 0; }
int sim_fputc (int c, FILE *f) { char b = c; said (f, &b, 1); return c; }
int sim_putc (int c, FILE *f) { char b = c; said (f, &b, 1); return c; }
int sim_puts (const char *s) { said (stdout, s, strlen (s)); said (stdout, "\n", 1); return 0; }
int sim_putchar (int c) { char b = c; said (stdout, &b, 1); return c; }
void sim_perror (const char *) {}
int sim_fflush (FILE *) { return 0; }
}

// ------------------------------------------------------------ threads
namespace sim {
struct Mtx { int owner = -1; int depth = 0; };
struct Cv { uint64_t waiters = 0; uint64_t tokens = 0; };
static std::map<const void *, Mtx> mtx;
static std::map<void *, int> sems;
static std::map<const void *, std::vector<std::shared_ptr<bool>>> cvs;
static unsigned nkeys;
static void (*dtors[64]) (void *);
void pthread_sim_reset ()
{
    mtx.clear ();
    sems.clear ();
    cvs.clear ();
    signal_reset ();
    nkeys = 0;
    memset (dtors, 0, sizeof dtors);
}
void thread_exit_keys ()
{
    for (int round = 0; round < 4; round++) {
        bool any = false;
        for (unsigned i = 0; i < nkeys; i++) {
            void *v = thread_keys ()[i];
            if (v && dtors[i]) {
                thread_keys ()[i] = NULL;
                dtors[i] (v);
                any = true;
            }
        }
        if (!any)
            break;
    }
}
}
extern "C" {
int sim_pthread_key_create (pthread_key_t *k, void (*d) (void *))
{
    sys_enter ("pthread_key_create");
    if (nkeys >= 64) return EAGAIN;
    dtors[nkeys] = d;
    *k = nkeys++;
    return 0;
}
int sim_pthread_key_delete (pthread_key_t) { return 0; }
void *sim_pthread_getspecific (pthread_key_t k) { return k < nkeys ? thread_keys ()[k] : NULL; }
int sim_pthread_setspecific (pthread_key_t k, const void *v)
{
    if (k >= nkeys) return EINVAL;
    thread_keys ()[k] = (void *)v;
    return 0;
}
int sim_pthread_once (pthread_once_t *o, void (*f) ())
{
    thread_point ();
    volatile int *p = (volatile int *)o;
    if (*p == 2) return 0;
    if (*p == 1) {
        thread_block ([p] { return *p == 2; });
        return 0;
    }
    *p = 1;
    f ();
    *p = 2;
    return 0;
}
int sim_pthread_mutex_init (pthread_mutex_t *m, const pthread_mutexattr_t *) { mtx.erase (m); return 0; }
int sim_pthread_mutex_destroy (pthread_mutex_t *m) { mtx.erase (m); return 0; }
int sim_pthread_mutex_lock (pthread_mutex_t *m)
{
    sys_enter ("mutex_lock");
    Mtx &x = mtx[m];
    if (x.owner == thread_self ())
        fail ("deadlock", "a thread locks a mutex it already holds");
    thread_block ([m] { return mtx[m].owner < 0; });
    mtx[m].owner = thread_self ();
    return 0;
}
int sim_pthread_mutex_trylock (pthread_mutex_t *m)
{
    sys_enter ("mutex_trylock");
    if (mtx[m].owner >= 0) return EBUSY;
    mtx[m].owner = thread_self ();
    return 0;
}
int sim_pthread_mutex_unlock (pthread_mutex_t *m)
{
    if (mtx[m].owner != thread_self ())
        fail ("deadlock", "a thread unlocks a mutex it does not hold");
    mtx[m].owner = -1;
    sys_enter ("mutex_unlock");
    return 0;
}
int sim_pthread_cond_init (pthread_cond_t *c, const pthread_condattr_t *) { cvs.erase (c); return 0; }
int sim_pthread_cond_destroy (pthread_cond_t *c) { cvs.erase (c); return 0; }
static int cond_wait_until (pthread_cond_t *c, pthread_mutex_t *m, uint64_t dead)
{
    auto tok = std::make_shared<bool> (false);
    int r = 0;
    if (mtx[m].owner != thread_self ())
        fail ("deadlock", "condition wait without holding the mutex");
    cvs[c].push_back (tok);
    mtx[m].owner = -1;
    sys_enter ("cond_wait");
    if (M.eintr && chance (M.eintr, 256))
        fault (F_SPURIOUS_WAKE);
    else {
        if (dead != ~0ull) at (dead, [] {});
        thread_block ([tok, dead] { return *tok || now () >= dead; });
    }
    if (!*tok) {
        auto &v = cvs[c];
        v.erase (std::remove (v.begin (), v.end (), tok), v.end ());
        if (now () >= dead) r = ETIMEDOUT;
    }
    thread_block ([m] { return mtx[m].owner < 0; });
    mtx[m].owner = thread_self ();
    return r;
}
int sim_pthread_cond_wait (pthread_cond_t *c, pthread_mutex_t *m) { return cond_wait_until (c, m, ~0ull); }
int sim_clock_gettime (clockid_t c, struct timespec *t);
int sim_pthread_cond_timedwait (pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t)
{
    struct timespec n;
    sim_clock_gettime (CLOCK_REALTIME, &n);
    int64_t d = (int64_t)(t->tv_sec - n.tv_sec) * 1000000000 + (t->tv_nsec - n.tv_nsec);
    return cond_wait_until (c, m, now () + (d > 0 ? d : 0));
}
int sim_pthread_cond_signal (pthread_cond_t *c)
{
    sys_enter ("cond_signal");
    auto &v = cvs[c];
    if (!v.empty ()) {
        size_t k = v.size () > 1 ? choose (v.size ()) : 0;
        *v[k] = true;
        v.erase (v.begin () + k);
    }
    return 0;
}
int sim_pthread_cond_broadcast (pthread_cond_t *c)
{
    sys_enter ("cond_broadcast");
    for (auto &t : cvs[c]) *t = true;
    cvs[c].clear ();
    return 0;
}
int sim_pthread_spin_init (void *m, int) { mtx.erase (m); return 0; }
int sim_pthread_spin_destroy (void *m) { mtx.erase (m); return 0; }
int sim_pthread_spin_lock (void *m) { return sim_pthread_mutex_lock ((pthread_mutex_t *)m); }
int sim_pthread_spin_unlock (void *m) { return sim_pthread_mutex_unlock ((pthread_mutex_t *)m); }
int sim_pthread_rwlock_init (void *m, const void *) { mtx.erase (m); return 0; }
int sim_pthread_rwlock_destroy (void *m) { mtx.erase (m); return 0; }
int sim_pthread_rwlock_rdlock (void *m) { return sim_pthread_mutex_lock ((pthread_mutex_t *)m); }
int sim_pthread_rwlock_wrlock (void *m) { return sim_pthread_mutex_lock ((pthread_mutex_t *)m); }
int sim_pthread_rwlock_unlock (void *m) { return sim_pthread_mutex_unlock ((pthread_mutex_t *)m); }
int sim_sem_init (void *m, int, unsigned v) { sems[m] = v; return 0; }
int sim_sem_destroy (void *m) { sems.erase (m); return 0; }
int sim_sem_post (void *m) { thread_point (); sems[m]++; return 0; }
int sim_sem_wait (void *m)
{
    thread_point ();
    if (sems[m] <= 0)
        thread_block ([m] { return sems[m] > 0; });
    sems[m]--;
    return 0;
}
int sim_sem_trywait (void *m)
{
    thread_point ();
    if (sems[m] <= 0) { errno = EAGAIN; return -1; }
    sems[m]--;
    return 0;
}
int sim_pthread_create (pthread_t *t, const pthread_attr_t *, void *(*f) (void *), void *a)
{
    sys_enter ("pthread_create");
    if (sys_refused (F_THREAD_FAIL)) return EAGAIN;
    int id = thread_spawn ([f, a] { f (a); });
    thread_set_helper (id);
    *t = id + 1;
    thread_point ();
    return 0;
}
int sim_pthread_join (pthread_t t, void **r)
{
    thread_join ((int)t - 1);
    if (r) *r = NULL;
    return 0;
}
int sim_pthread_detach (pthread_t) { return 0; }
pthread_t sim_pthread_self () { return thread_self () + 1; }
int sim_pthread_equal (pthread_t a, pthread_t b) { return a == b; }
int sim_pthread_setname_np (pthread_t, const char *) { return 0; }

// ------------------------------------------------------------ resolver
static uint64_t fnv (const void *p, size_t n)
{
    uint64_t h = 1469598103934665603ull;
    for (size_t i = 0; i < n; i++) h = (h ^ ((const uint8_t *)p)[i]) * 1099511628211ull;
    return h;
}
static uint64_t fnvs (const char *s) { return s ? fnv (s, strlen (s)) : 7; }
static void resolver_wait (const char *what)
{
    D.calls++;
    D.in_call++;
    D.max_in_call = std::max (D.max_in_call, D.in_call);
    D.threads.push_back (thread_self ());
    uint64_t d = 0;
    if (D.delay) {
        static const uint64_t m[] = { 0, 1000, 200000, 20000000, 2000000000, 9000000000ull };
        d = m[choose (D.delay >= 6 ? 6 : D.delay + 1)];
        if (d) d = d / 2 + noise () % d;
    }
    TR ("resolver: %s starts in simulated thread %d, takes %llu us", what, thread_self (), (unsigned long long)(d / 1000));
    if (d) {
        fault (F_DNS_DELAY);
        uint64_t t = now () + d;
        at (t, [] {});
        thread_block ([t] { return now () >= t; });
    }
    D.in_call--;
}
int sim_getaddrinfo (const char *node, const char *serv, const struct addrinfo *h, struct addrinfo **res)
{
    sys_enter ("getaddrinfo");
    std::string n = node ? node : "", s = serv ? serv : "";
    if (node) check_mem (node, n.size () + 1, "getaddrinfo name");
    if (serv) check_mem (serv, s.size () + 1, "getaddrinfo service");
    if (h) check_mem (h, sizeof *h, "getaddrinfo hints");
    struct addrinfo hints = {};
    if (h) hints = *h;
    D.log.push_back ("gai|" + n + "|" + s);
    D.asked[n + "|" + s] = now ();
    resolver_wait ("getaddrinfo");
    D.ended[n + "|" + s] = now ();
    int e = 0;
    auto it = D.outcome.find (n + "|" + s);
    if (it != D.outcome.end ()) e = it->second;
    if (!node && !serv) e = EAI_NONAME;
    sys_leave ("getaddrinfo", -1, e, 0);
    if (e) {
        fault (F_DNS_ERROR);
        errno = D.sys_errno ? D.sys_errno (n + "|" + s) : EIO;
        return e;
    }
    int cnt = 1 + fnvs (n.c_str ()) % 3;
    struct addrinfo *first = NULL, **pp = &first;
    for (int i = 0; i < cnt; i++) {
        struct addrinfo *a = (struct addrinfo *)calloc (1, sizeof *a + sizeof (struct sockaddr_in));
        struct sockaddr_in *sa = (struct sockaddr_in *)(a + 1);
        sa->sin_family = AF_INET;
        sa->sin_port = htons ((uint16_t)fnvs (serv));
        sa->sin_addr.s_addr = htonl ((uint32_t)fnvs (n.c_str ()) + i);
        a->ai_family = AF_INET;
        a->ai_socktype = hints.ai_socktype ? hints.ai_socktype : SOCK_STREAM;
        a->ai_protocol = hints.ai_protocol;
        a->ai_flags = hints.ai_flags;
        a->ai_addrlen = sizeof *sa;
        a->ai_addr = (struct sockaddr *)sa;
        *pp = a;
        pp = &a->ai_next;
        D.live++;
    }
    check_mem (res, sizeof *res, "getaddrinfo result");
    *res = first;
    return 0;
}
void sim_freeaddrinfo (struct addrinfo *a)
{
    D.frees++;
    while (a) {
        struct addrinfo *n = a->ai_next;
        D.live--;
        free (a);
        a = n;
    }
}
int sim_getnameinfo (const struct sockaddr *a, socklen_t al, char *host, socklen_t hl, char *serv, socklen_t sl, int flags)
{
    sys_enter ("getnameinfo");
    check_mem (a, al, "getnameinfo address");
    std::string addr ((const char *)a, al);
    D.log.push_back ("gni|" + addr);
    D.asked[addr] = now ();
    resolver_wait ("getnameinfo");
    D.ended[addr] = now ();
    int e = 0;
    auto it = D.outcome.find (addr);
    if (it != D.outcome.end ()) e = it->second;
    char hb[64], sb[64];
    snprintf (hb, sizeof hb, "h%llx-%d", (unsigned long long)fnv (addr.data (), addr.size ()), flags);
    snprintf (sb, sizeof sb, "s%llx", (unsigned long long)fnv (addr.data (), addr.size ()) & 0xffff);
    sys_leave ("getnameinfo", -1, e, 0);
    if (e) {
        fault (F_DNS_ERROR);
        errno = D.sys_errno ? D.sys_errno (addr) : EIO;
        return e;
    }
    if (host && hl) {
        check_mem (host, hl, "getnameinfo host buffer");
        if (strlen (hb) + 1 > hl) return EAI_OVERFLOW;
        strcpy (host, hb);
    }
    if (serv && sl) {
        check_mem (serv, sl, "getnameinfo service buffer");
        if (strlen (sb) + 1 > sl) return EAI_OVERFLOW;
        strcpy (serv, sb);
    }
    return 0;
}
const char *sim_gai_strerror (int e) { return gai_strerror (e); }
}
namespace sim {
uint64_t dns_hash (const std::string &s) { return fnv (s.data (), s.size ()); }
uint64_t dns_hash_serv (const char *s) { return fnvs (s); }
}
