// Scenario toolkit: task systems, tasks with C++ bodies, disturbers, phases.
#pragma once
#include "kernel.h"
#include <hev-task.h>
#include <hev-task-system.h>
#include <hev-memory-allocator.h>
#include <cerrno>
#include <cstring>
#include <unistd.h>
#include <fcntl.h>

// libc calls of scenarios go to the simulated kernel as well
extern "C" {
int sim_close (int);
ssize_t sim_read (int, void *, size_t);
ssize_t sim_write (int, const void *, size_t);
int sim_pipe2 (int[2], int);
int sim_socketpair (int, int, int, int[2]);
int sim_socket (int, int, int);
int sim_bind (int, const struct sockaddr *, socklen_t);
int sim_listen (int, int);
int sim_fcntl (int, int, ...);
int sim_dup (int);
int sim_shutdown (int, int);
int sim_poll (struct pollfd *, nfds_t, int);
void rt_jump (int64_t);
}

namespace w {
using namespace sim;

struct Task {
    HevTask *t = nullptr;      // the handle; we hold one reference until drop()
    int id = 0;
    std::function<void ()> fn;
    bool started = false, done = false;
    bool held = false;         // our reference
    const char *what = "";     // what it is blocked in, for messages
    bool pokable = true;       // disturbers may wake it
    uint64_t turns = 0;
    uint64_t pokes = 0;        // unrelated wakeups aimed at it
    bool must_end = true;
    int thr = 0;               // simulated thread it belongs to
};
extern std::vector<Task *> tasks;
extern uint64_t turn_no;       // counts task activations the scenarios observe

int sys_init ();               // hev_task_system_init, must succeed
void sys_fini ();              // drops our references, hev_task_system_fini
void sys_run ();               // runs until all ended; idle with tasks left is a violation
Task *prepare (std::function<void ()> fn, int prio = HEV_TASK_PRIORITY_DEFAULT, int stack = -1); // not run yet
Task *spawn (std::function<void ()> fn, int prio = HEV_TASK_PRIORITY_DEFAULT, int stack = -1);
void start (Task *t);
void drop (Task *t);           // release our reference
bool live (Task *t);
Task *self ();                 // current
void yield ();                 // plain yield
void wait_io ();               // WAITIO yield
int rprio ();                  // random priority 1..15 (mostly default)
int rprio0 ();                 // 0..15
// wakes random live tasks for no reason, `rounds` times
void disturber (uint32_t rounds);
void maybe_disturbers ();
// A phase body is run in a task when everything is quiet (nothing runnable, no
// event pending).  Phases run in order; when none is left and tasks remain the
// run has a violation "stuck".
void at_quiet (std::function<void ()> fn);
extern std::function<void ()> on_stuck;   // may fail() with a better message
void reset ();
struct Leak { Ledger l; Leak () : l (ledger ()) {} void check (const char *where); };
uint64_t ms (uint64_t x);
// several task systems in several threads: call first
void mt_begin ();
void pause (uint64_t ns);       // the calling thread waits outside any task
void world_ends ();            // lets everything under way outside the process happen
}
