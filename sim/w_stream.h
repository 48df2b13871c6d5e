// Byte streams with known content, external peers, and the library's stream
// operations behind one interface.
#pragma once
#include "w.h"
#include <hev-task-io.h>
#include <hev-task-io-socket.h>
#include <hev-task-io-pipe.h>
#include <hev-task-io-poll.h>

namespace w {
// One direction of a stream.  The byte at an offset is a function of the offset,
// so loss, repetition and reordering all show as wrong content.
struct Dir {
    const char *name = "";
    uint64_t salt = 0;
    uint64_t total = 0;        // what the writer intends to send
    uint64_t sent = 0;         // reported as transferred to the writer
    uint64_t got = 0;          // delivered to the reader
    bool ended = false;        // the writer finished in order
    bool broken = false;       // reset, or the reader is gone
    uint8_t at (uint64_t o) const
    {
        uint64_t x = (o + salt) * 0x9e3779b97f4a7c15ull;
        return (uint8_t)((x >> 29) ^ (x >> 50));
    }
    void fill (char *b, size_t n, uint64_t o) const
    {
        for (size_t i = 0; i < n; i++)
            b[i] = at (o + i);
    }
    std::string text (uint64_t o, size_t n) const { std::string s (n, 0); fill (&s[0], n, o); return s; }
    void verify (const char *b, size_t n, uint64_t o, const char *who) const;
    void take (const char *b, size_t n, const char *who) { verify (b, n, got, who); got += n; }
    bool finished () const { return ended && got == sent; }
};

// The far end of a stream, played by the simulator.
struct Peer {
    FileP e;
    Dir *out = nullptr, *in = nullptr;   // peer -> task, task -> peer
    uint32_t speed = 0;        // delay mode
    uint32_t chunk = 64;
    int kill = 0;              // 0 none, 1 reset, 2 close (reads nothing more)
    int64_t kill_in = -1;      // after so many steps
    bool wait_ready = false;   // shuts down only after reading everything
    bool closed = false, out_done = false, in_done = false, sched = false;
    bool deaf = false;         // does not read for now
    bool keep_open = false;    // does not end the outgoing direction by itself
    uint64_t gen = 0;
};
Peer *peer_new (FileP e, Dir *out, Dir *in);
void peer_go (Peer *p);
void peer_random (Peer *p, bool faults);
void peer_end (Peer *p);       // ends the outgoing direction of a keep_open peer
void peer_listen (Peer *p);    // a deaf peer starts reading
Dir *dir_new (const char *name, uint64_t total);

// op: 0 read 1 readv 2 recv 3 recvfrom 4 recvmsg
ssize_t read_op (int op, int fd, char *b, size_t n, int flags, HevTaskIOYielder y, void *yd);
ssize_t write_op (int op, int fd, const char *b, size_t n, int flags, HevTaskIOYielder y, void *yd);
extern const char *const read_name[5], *const write_name[5];
const char *ename (int e);
// ---- vectors with guard bytes around every element
struct Vec {
    std::vector<std::string> part;
    std::vector<struct iovec> v, orig;
    Vec (size_t n)
    {
        uint32_t k = 1 + choose (4);
        size_t left = n;
        for (uint32_t i = 0; i < k; i++) {
            size_t s = i + 1 == k ? left : noise () % 4 == 0 ? 0 : left ? noise () % (left + 1) : 0;
            part.emplace_back (s + 16, (char)0xc5);
            left -= s;
        }
        if (noise () % 4 == 0)
            part.emplace_back (16, (char)0xc5);
        for (auto &p : part)
            v.push_back (iovec{ &p[8], p.size () - 16 });
        orig = v;
    }
    void put (const char *b)
    {
        for (auto &x : v) {
            memcpy (x.iov_base, b, x.iov_len);
            b += x.iov_len;
        }
    }
    void get (char *b)
    {
        for (auto &x : orig) {
            memcpy (b, x.iov_base, x.iov_len);
            b += x.iov_len;
        }
    }
    void check (const char *what)
    {
        for (auto &p : part)
            for (int i = 0; i < 8; i++)
                CHECK ((uint8_t)p[i] == 0xc5 && (uint8_t)p[p.size () - 1 - i] == 0xc5, "memory", "%s wrote outside the given buffers", what);
        CHECK (memcmp (v.data (), orig.data (), v.size () * sizeof (struct iovec)) == 0, "memory", "%s changed the caller's buffer vector", what);
    }
};
}
