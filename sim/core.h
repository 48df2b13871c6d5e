// Deterministic simulation core: choices, simulated time, runs, oracles.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <functional>
#include <string>
#include <vector>

namespace sim {

// ---- choices: the only source of nondeterminism of a run ---------------
uint32_t choose (uint32_t n);               // [0,n); 0 is always the simplest
inline bool chance (uint32_t num, uint32_t den)
{ return num && choose (den) >= den - (num < den ? num : den); }
inline uint32_t range (uint32_t lo, uint32_t hi) { return lo + choose (hi - lo + 1); }
template <class T, size_t N> inline T pick (const T (&a)[N]) { return a[choose (N)]; }
uint64_t noise ();   // pseudo random stream derived from one choice of the run (bulk jitter)

// ---- run control -------------------------------------------------------
[[noreturn]] void fail (const char *oracle, const char *fmt, ...) __attribute__ ((format (printf, 2, 3)));
[[noreturn]] void end_run ();               // ends the run normally from anywhere
[[noreturn]] void discard_run (const char *why); // run not usable (harness limit), counted
#define CHECK(cond, oracle, ...) do { if (!(cond)) ::sim::fail (oracle, __VA_ARGS__); } while (0)
void trace (const char *fmt, ...) __attribute__ ((format (printf, 1, 2)));
extern bool tracing;
#define TR(...) do { if (::sim::tracing) ::sim::trace (__VA_ARGS__); } while (0)
void mix (uint64_t a, uint64_t b = 0);      // event hash (determinism + distinctness)
void step (uint32_t n = 1);                 // bounded steps: exceeding is a livelock
void set_step_limit (uint64_t n);
uint64_t steps ();

// ---- time --------------------------------------------------------------
uint64_t now ();                            // simulated monotonic ns
void at (uint64_t when, std::function<void ()> fn);    // event
inline void after (uint64_t ns, std::function<void ()> fn) { at (now () + ns, std::move (fn)); }
void advance (uint64_t ns);                 // let time pass (a stall of the process)
bool run_due_events ();                     // fires events that are due
uint64_t pending_events ();

// ---- statistics --------------------------------------------------------
enum Fault {
    F_EINTR, F_SPURIOUS_EVENT, F_SPURIOUS_WAKE, F_EVENT_REORDER, F_EVENT_DELAY,
    F_SHORT_WRITE, F_NET_DELAY, F_NET_LOSS, F_NET_DUP, F_NET_REORDER, F_RESET,
    F_HALF_CLOSE, F_PEER_STALL, F_CONN_REFUSED, F_CONN_TIMEOUT, F_CONN_ABORT,
    F_ALLOC_FAIL, F_MMAP_FAIL, F_FD_FAIL, F_SETUP_FAIL, F_IO_ERROR, F_TIMER_LATE,
    F_CLOCK_STALL, F_CLOCK_COARSE, F_CLOCK_EDGE, F_REALTIME_JUMP, F_DNS_DELAY, F_DNS_ERROR,
    F_THREAD_PREEMPT, F_THREAD_FAIL, F_ERRNO_CLOBBER, F_MEM_DIRTY, F_MEM_REUSE,
    F_STACK_OVERRUN, F_WILD_ACCESS, F_N
};
extern const char *fault_name[F_N];
void fault (Fault f);                       // a fault really fired
void probe (const char *name);              // a rare condition really happened
void nontrivial ();                         // the run exercised the property
void note (const char *fmt, ...) __attribute__ ((format (printf, 1, 2))); // sample text

// ---- per run configuration of the simulated machine --------------------
struct Machine {
    uint32_t eintr = 0;        // x/256 blocking waits interrupted
    uint32_t spurious = 0;     // x/256 polls re-report a ready descriptor
    uint32_t pollerr = 0;      // x/256 polls fail
    uint32_t reorder = 0;      // shuffle event order
    uint32_t evdelay = 0;      // x/256 hold back an event for one poll
    uint32_t shortw = 0;       // x/256 writes find less room than there is
    uint32_t tick = 0;         // time per syscall mode
    uint32_t late = 0;         // timer latency mode
    uint32_t stall = 0;        // x/1024 syscalls stall the process for long
    uint32_t gran = 1;         // clock granularity ns
    uint32_t clobber = 0;      // successful calls leave garbage in errno
    int64_t alloc_fail_at = -1;   // n-th allocation refused
    uint32_t alloc_fail_n = 0;    // how many in a row
    uint32_t alloc_fail_rate = 0; // x/256
    int64_t sys_fail_at = -1;     // n-th fallible set-up syscall refused
    uint32_t sys_fail_n = 0;
    uint32_t sys_fail_rate = 0;
    uint32_t memfill = 0;      // what fresh memory contains
    uint32_t reuse = 0;        // freed memory handed out again at once
    uint32_t maporder = 0;     // placement of mappings
    bool adjacent = false;     // no gaps between them
    uint32_t preempt = 0;      // thread preemption: x/256 at syscalls
    uint32_t npoints = 0;      // number of preemption points at memory accesses
    uint32_t point_span = 2000;
};
extern Machine M;
void machine_benign ();                     // fault-free
void machine_random (bool faults);          // swarm: each run draws its own mix

// ---- leak ledger --------------------------------------------------------
struct Ledger { size_t blocks, bytes, maps, fds, signals, altstacks; };
Ledger ledger ();
std::string ledger_detail ();

// ---- scenarios ----------------------------------------------------------
struct Scenario {
    const char *prop;
    const char *name;
    uint32_t weight;
    void (*main) ();                        // runs in simulated thread 0
    bool threads;                           // uses more than one simulated thread
};
void add_scenario (const Scenario &s);
struct Reg { Reg (const char *p, const char *n, uint32_t w, void (*m) (), bool t = false)
    { add_scenario (Scenario{ p, n, w, m, t }); } };
#define SCENARIO(prop, name, weight) static void name (); \
    static ::sim::Reg reg_##name (prop, #name, weight, name); static void name ()
#define SCENARIO_MT(prop, name, weight) static void name (); \
    static ::sim::Reg reg_##name (prop, #name, weight, name, true); static void name ()

// Called when every simulated thread waits and no event is pending.  Returns
// true if it changed something (the run goes on), false to end the run.
extern std::function<bool ()> on_idle;
// Called (if set) each time simulated thread 0 enters a blocking event wait.
extern std::function<void ()> on_block;
// Called before simulated time jumps (from, to) because everything waits.
extern std::function<void (uint64_t, uint64_t)> on_jump;

const char *variant ();                     // build variant of the library
bool variant_has (const char *feature);

// ---- simulated threads ---------------------------------------------------
int thread_self ();
int thread_spawn (std::function<void ()> fn);  // returns id
void thread_join (int id);
void thread_point ();                           // possible preemption
void thread_block (const std::function<bool ()> &ready); // until ready() holds
bool thread_mt ();
void thread_set_helper (int id);                // started by the library: may block
bool thread_helper ();

// keeps `ctx` alive until the next run starts (tasks are abandoned on failure)
} // namespace sim
