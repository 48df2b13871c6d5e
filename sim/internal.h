#pragma once
#include <signal.h>
#include <map>
#include <string>
#include "core.h"
#include <utility>
namespace sim {
struct RunState {
    const uint32_t *replay = nullptr;
    size_t replay_n = 0, pos = 0;
    bool record = false;
    std::vector<uint32_t> choices;
    uint64_t rng = 0, noise = 1, hash = 0x1234567, ihash = 0;
    uint64_t now = 0, start = 0, evseq = 0, simtime = 0;
    uint64_t steps = 0, step_limit = 200000, events = 0;
    uint64_t accesses = 0, next_point = 60000000, access_limit = 60000000, points_left = 0;
    bool no_access_points = false;
    int in_event = 0, immune = 0;
    int64_t allocs = 0, syscalls_fallible = 0;
    uint64_t alloc_idx = 0;
    volatile bool over = false;
    bool active = false, discarded = false, nontrivial = false;
    uint64_t serial = 0;
    uint64_t faults[F_N] = {};
    std::vector<std::pair<const char *, uint64_t>> probes;
    std::string oracle, message, note;
    std::vector<std::string> tracelog;
    const char *scenario = "";
};
extern RunState R;
extern const char *only_scenario;   // restrict the search (development)
void run_once (const char *prop, uint64_t seed, const std::vector<uint32_t> *replay, bool record);
const std::vector<Scenario> &scenarios ();
void install_handlers ();
void kernel_reset ();
void pthread_sim_reset ();
void at_cleanup (std::function<void ()> f);
void scenario_cleanup ();
bool next_event_time (uint64_t *t);
void jump_to_next_event ();
void *heap_alloc (size_t size, size_t align = 16);
void heap_free (void *p);
void *heap_realloc (void *p, size_t size);
size_t heap_size (void *p);
bool alloc_fault (bool map);
void check_mem (const void *p, size_t n, const char *what);
bool mem_live (const void *p);
bool in_heap (const void *p);
int page_state (const void *p);             // -1 elsewhere, 0 not mapped, 1 writable, 2 readable, 3 protected
const char *map_start (const void *p);      // of the mapping
const char *block_start (const void *p);    // of the heap block
extern struct sigaction acts[64];
extern std::map<int, stack_t> alts;
extern void (*fault_hook) (int, siginfo_t *, void *);
extern void (*abort_hook) (const char *);
extern std::string diag;                    // what the library wrote to the standard error stream
extern std::string out_text;                // what it wrote to any stream
void *map_alloc (size_t len);
int map_free (void *p, size_t len);
int map_protect (void *p, size_t len, int prot);
void **thread_keys ();
size_t open_fds ();
std::string open_fds_detail ();
void arm_access_points ();
}
