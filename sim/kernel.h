// Simulated kernel objects, as seen by scenarios.
#pragma once
#include "internal.h"
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <poll.h>
#include <sys/epoll.h>
#include <sys/socket.h>
#include <sys/types.h>
#include <sys/uio.h>

namespace sim {
struct File;

// One direction of a byte stream.
struct Chan {
    std::string q;                 // arrived, not yet read
    std::deque<size_t> chunks;     // for pipes: slot occupancy
    struct Seg { uint64_t t; std::string d; bool fin; };
    std::deque<Seg> fly;           // under way
    size_t flyb = 0;
    size_t cap = 65536, low = 1;   // capacity; room needed to be reported writable
    size_t slots = 0;              // 0: no slot limit
    bool nospace = false;          // the writer was told to wait
    uint64_t full_until = 0;       // momentarily full
    bool wshut = false;            // writer finished (FIN sent or queued)
    bool fin = false;              // end of stream reached the reader
    bool rshut = false;            // reader is gone
    bool dead = false;             // reset
    bool net = false;              // transport with delays
    File *r = nullptr, *w = nullptr;
    uint64_t in = 0, out = 0;      // bytes accepted / bytes handed to the reader
    std::string log_in, log_out;   // full history
    std::function<void ()> on_r, on_w; // external end notifications
    size_t used () const { return q.size () + flyb; }
    size_t room () const;
    bool writable () const;
};
typedef std::shared_ptr<Chan> ChanP;

struct Msg {
    std::string d;
    std::string from;              // sockaddr bytes
    std::vector<std::shared_ptr<File>> rights;
    uint64_t id = 0;
};

struct EpItem;
enum FType { T_PIPE_R, T_PIPE_W, T_STREAM, T_DGRAM, T_LISTEN, T_REG, T_TIMER, T_EPOLL, T_EVENT };
struct File {
    FType type;
    uint64_t id = 0;
    int flags = 0;                 // O_NONBLOCK | O_APPEND
    int accmode = 2;
    int nfd = 0;                   // descriptors referring to it
    int domain = 0, stype = 0;
    // streams
    ChanP rx, tx;
    int err = 0;                   // pending error
    int cstate = 0;                // 0 unconnected 1 connecting 2 connected-not-reported 3 connected 4 failed
    bool was_reset = false;
    bool reported_reset = false;
    std::string local, peer;       // addresses
    uint64_t conn = 0;             // connection id
    // datagram
    std::deque<Msg> mq;
    size_t mcap = 8;               // messages
    std::weak_ptr<File> dpeer;     // socketpair peer
    uint64_t pops = 0, sends = 0;  // datagrams taken from and sent by it
    uint64_t sigpipe = 0;          // writes that would have raised SIGPIPE
    uint64_t errs = 0;             // errors reported for it
    Msg last_pop;
    std::string last_sent, last_to;
    bool dnospace = false;
    // listener
    std::deque<std::shared_ptr<File>> aq;
    int backlog = 0;
    // regular
    std::shared_ptr<std::string> data;
    size_t off = 0;
    // timerfd
    uint64_t ticks = 0, expire = 0, interval = 0, gen = 0;
    int clk = 1;
    // epoll
    std::list<EpItem *> items;
    std::deque<EpItem *> ready;
    // watchers
    std::vector<EpItem *> watch;
    // scripted failures
    int fail_after = -1, fail_err = 0;
    std::vector<std::shared_ptr<File>> rights_pending; // stream SCM_RIGHTS
    std::deque<std::pair<uint64_t, std::vector<std::shared_ptr<File>>>> scm; // (offset, files) on rx
    bool ext = false;              // external end, not in the descriptor table
    ~File ();
};
typedef std::shared_ptr<File> FileP;
struct EpItem { File *ep; File *f; int fd; uint32_t events; uint64_t data; bool queued; bool off; uint64_t held; };

FileP file (int fd);
int fd_new (FileP f, int flags = 0);
short poll_mask (File *f);
void notify (File *f, short mask);

// ---- used by scenarios ------------------------------------------------
struct StreamOpt { size_t cap_ab = 65536, cap_ba = 65536; size_t low = 1; bool net = false; };
// A connected stream socket whose other end is played by the scenario.
FileP ext_stream (int *fd, const StreamOpt &o, bool nonblock = true);
size_t ext_write (FileP e, const void *p, size_t n);   // as much as fits
std::string ext_read (FileP e, size_t max);
bool ext_eof (FileP e);                                 // all read and closed
void ext_shut_write (FileP e);
void ext_close (FileP e);
void ext_reset (FileP e);
void random_stream_opt (StreamOpt &o);
// pipes with the other end external
FileP ext_pipe_in (int *fd, size_t cap);    // scenario writes, fd reads
FileP ext_pipe_out (int *fd, size_t cap);   // fd writes, scenario reads

// inet world
struct Net {
    uint32_t refuse = 0, tmo = 0, abort_ = 0;  // x/256 per connect
    uint32_t loss = 0, dup = 0, reorder = 0, delay = 0; // datagrams
    size_t pipe_cap = 65536, sock_cap = 65536;
    bool random_caps = false;
    uint32_t conn_count = 0;
    struct Conn { uint64_t id; int outcome; bool accepted; bool client_gone; std::string caddr, saddr; FileP srv; int err = 0; };
    std::vector<Conn> conns;      // every connect attempt, outcome: 0 pending 1 established 2 refused 3 timeout 4 other error 5 aborted before accept
    struct Sent { uint64_t id; std::string d, from, to; int copies; };
    std::vector<Sent> sent;       // every datagram sent
    std::map<uint64_t, int> queued; // datagram id -> copies put into the receiver's queue
    mode_t open_mode = 0;         // of the last file created
};
extern Net N;
FileP listener_at (const std::string &addr);
// an external client connects to a simulated listener; returns its end
FileP ext_connect (const std::string &addr, uint64_t *id);
// a datagram from outside
void ext_dgram (const std::string &to, const std::string &from, const std::string &d);
std::string make_addr6 (uint8_t host, uint16_t port);
std::string make_addr_unix (const std::string &path);
std::string make_addr (uint32_t ip, uint16_t port);
extern std::map<std::string, std::shared_ptr<std::string>> fs;

// resolver stub
struct Resolver {
    uint32_t delay = 0;          // mode
    uint32_t err = 0;            // x/256
    uint64_t calls = 0, frees = 0;
    uint64_t live = 0;
    int in_call = 0, max_in_call = 0;
    std::map<std::string, int> outcome; // node|service or address -> error forced
    std::map<std::string, uint64_t> asked, ended; // per query: when it reached the resolver, when it had the answer
    std::function<int (const std::string &)> sys_errno; // errno left by a failing query
    std::vector<std::string> log;
    std::vector<int> threads;    // simulated thread each call ran in
};
extern Resolver D;
struct SysLog { uint64_t n = 0; int blocked_in_syscall = 0; };
extern SysLog S;
// every descriptor operation of the library: hook for oracles (op, fd, result)
extern std::function<void (const char *, int, long)> on_sys;
// a readiness event handed out by epoll_wait: (descriptor, mask)
extern bool calm;              // no invented readiness events for now
extern int poll_errno;         // error of the last poll made to fail
extern std::function<void (int, uint32_t)> on_event;
extern bool allow_blocking; // blocking descriptors may block the thread
uint64_t closes_of (int fd);
uint64_t dns_hash (const std::string &s);
uint64_t dns_hash_serv (const char *s);
uint64_t max_timer_latency ();
extern uint64_t longest_tick;  // most time a call took so far
void thread_exit_keys ();
}
