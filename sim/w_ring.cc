// P24 ring buffers shared by tasks.
#include "w_stream.h"
#include <hev-circular-buffer.h>
#include <hev-task-io.h>
#include <hev-task-io-socket.h>
#include <deque>
using namespace w;
namespace p24 {
struct Ring {
    HevCircularBuffer *b;
    size_t cap;
    std::deque<uint8_t> q;      // model
    uint64_t put = 0, got = 0, total = 0;
    bool done = false;
    HevTask *reader = nullptr, *writer = nullptr;
};
static uint8_t byte_at (uint64_t i) { return (uint8_t)(i * 131 + (i >> 8) * 17 + 7); }
static void sizes (Ring *r)
{
    CHECK (hev_circular_buffer_get_max_size (r->b) == r->cap, "room", "a ring buffer of %zu bytes reports another capacity", r->cap);
    CHECK (hev_circular_buffer_get_use_size (r->b) == r->q.size (), "data", "a ring buffer with %zu bytes reports %zu", r->q.size (), hev_circular_buffer_get_use_size (r->b));
}
static size_t offered (struct iovec *v, int n, const char *what)
{
    CHECK (n >= 0 && n <= 2, "room", "%s offers %d pieces", what, n);
    size_t s = 0;
    for (int i = 0; i < n; i++) {
        CHECK (v[i].iov_len, "room", "%s offers an empty piece", what);
        check_mem (v[i].iov_base, v[i].iov_len, what);
        s += v[i].iov_len;
    }
    if (n == 2)
        CHECK ((char *)v[0].iov_base >= (char *)v[1].iov_base + v[1].iov_len || (char *)v[1].iov_base >= (char *)v[0].iov_base + v[0].iov_len, "room", "%s offers overlapping pieces", what);
    return s;
}
static void pass (int choice)
{
    switch (choice) {
    case 1: yield (); break;
    case 2: hev_task_sleep (1); turn_no++; break;
    }
}
// one turn of writing: start, fill some, other tasks may run, finish
static bool write_some (Ring *r, int fd)
{
    struct iovec v[2];
    memset (v, 0x5a, sizeof v);
    int n = hev_circular_buffer_writing (r->b, v);
    size_t room = offered (v, n, "writing");
    CHECK (room == r->cap - r->q.size (), "room", "a ring buffer of %zu bytes that holds %zu offers room for %zu", r->cap, r->q.size (), room);
    if (!n)
        return false;
    size_t want = choose (3) ? room : noise () % (room + 1);
    if (want > r->total - r->put)
        want = r->total - r->put;
    size_t k = 0;
    if (fd >= 0) {
        // filled by the kernel, possibly with less
        self ()->what = "readv";
        ssize_t s = hev_task_io_readv (fd, v, n, NULL, NULL);
        turn_no++;
        CHECK (s > 0, "io", "a read into a ring buffer fails");
        k = s;
    } else
        for (int i = 0; i < n; i++)
            for (size_t j = 0; j < v[i].iov_len && k < want; j++) {
                ((uint8_t *)v[i].iov_base)[j] = byte_at (r->put + k++);
                if (k % 16 == 0 && choose (20) == 19)
                    yield ();
            }
    pass (choose (3));
    hev_circular_buffer_write_finish (r->b, k);
    for (size_t i = 0; i < k; i++)
        r->q.push_back (byte_at (r->put++));
    sizes (r);
    return k;
}
static bool read_some (Ring *r)
{
    struct iovec v[2];
    memset (v, 0x5a, sizeof v);
    int n = hev_circular_buffer_reading (r->b, v);
    size_t have = offered (v, n, "reading");
    CHECK (have == r->q.size (), "data", "a ring buffer with %zu bytes offers %zu", r->q.size (), have);
    if (!n)
        return false;
    std::vector<uint8_t> seen (r->q.begin (), r->q.end ());
    pass (choose (3));
    size_t k = 0, want = choose (3) ? have : noise () % (have + 1);
    for (int i = 0; i < n; i++)
        for (size_t j = 0; j < v[i].iov_len; j++, k++)
            CHECK (((uint8_t *)v[i].iov_base)[j] == seen[k], "data", "byte %zu in a ring buffer is another one", (size_t)r->got + k);
    hev_circular_buffer_read_finish (r->b, want);
    r->q.erase (r->q.begin (), r->q.begin () + want);
    r->got += want;
    sizes (r);
    return want;
}
SCENARIO ("P24", shared_by_tasks, 6)
{
    static const size_t caps[] = { 16, 1, 2, 3, 7, 64, 100, 255, 4096, 5000 };
    machine_random (choose (4));
    M.alloc_fail_at = M.sys_fail_at = -1;
    M.alloc_fail_rate = M.sys_fail_rate = 0;
    set_step_limit (3000000);
    Leak lk;
    sys_init ();
    static std::vector<Ring *> rs;
    at_cleanup ([] { for (auto r : rs) delete r; rs.clear (); });
    uint32_t nr = 1 + choose (3);
    for (uint32_t i = 0; i < nr; i++) {
        Ring *r = new Ring ();
        rs.push_back (r);
        r->cap = choose (8) == 7 ? 1 + noise () % 9000 : pick (caps);
        r->b = hev_circular_buffer_new (r->cap);
        CHECK (r->b, "create", "a ring buffer is refused although there is memory");
        r->total = 1 + noise () % (r->cap * 4 + 20);
        sizes (r);
        int fd = -1;
        if (choose (3) == 2) {
            int p[2];
            sim_pipe2 (p, O_NONBLOCK);
            fd = p[0];
            int w = p[1];
            uint64_t total = r->total;
            spawn ([=] {
                HevTask *me = hev_task_self ();
                hev_task_add_fd (me, w, POLLOUT);
                for (uint64_t i = 0; i < total;) {
                    uint8_t t[64];
                    size_t k = 1 + noise () % 64;
                    if (k > total - i)
                        k = total - i;
                    for (size_t j = 0; j < k; j++)
                        t[j] = byte_at (i + j);
                    self ()->what = "write";
                    ssize_t s = hev_task_io_write (w, t, k, NULL, NULL);
                    turn_no++;
                    CHECK (s > 0, "io", "a write fails");
                    i += s;
                }
                hev_task_del_fd (me, w);
                sim_close (w);
            }, rprio ());
        }
        hev_circular_buffer_ref (r->b);
        spawn ([=] {
            if (fd >= 0)
                hev_task_add_fd (hev_task_self (), fd, POLLIN);
            while (r->put < r->total)
                if (!write_some (r, fd))
                    yield ();
            if (fd >= 0) {
                hev_task_del_fd (hev_task_self (), fd);
                sim_close (fd);
            }
            hev_circular_buffer_unref (r->b);
        }, rprio ());
        spawn ([=] {
            while (r->got < r->total)
                if (!read_some (r))
                    yield ();
            hev_circular_buffer_unref (r->b);
        }, rprio ());
    }
    maybe_disturbers ();
    sys_run ();
    nontrivial ();
    sys_fini ();
    lk.check ("after fini");
}
// one task, arbitrary order of operations, references, odd capacities
SCENARIO ("P24", histories, 4)
{
    machine_random (0);
    Leak lk;
    sys_init ();
    spawn ([=] {
        uint32_t nb = 1 + choose (3);
        for (uint32_t i = 0; i < nb; i++) {
            Ring r;
            static const size_t odd[] = { 0, SIZE_MAX, SIZE_MAX - 39, SIZE_MAX - 31, SIZE_MAX - 100, SIZE_MAX / 2 };
            bool o = choose (6) == 5;
            r.cap = o ? pick (odd) : choose (2) ? 1 + noise () % 20 : 1 + noise () % 5000;
            bool refuse = choose (8) == 7;
            if (refuse) {
                M.alloc_fail_at = R.allocs;
                M.alloc_fail_n = 2;
            }
            r.b = hev_circular_buffer_new (r.cap);
            M.alloc_fail_at = -1;
            if (!r.b) {
                CHECK (refuse || o, "create", "a ring buffer is refused although there is memory");
                continue;
            }
            CHECK (r.cap < SIZE_MAX / 4, "room", "a ring buffer of impossible size is handed out");
            r.total = UINT64_MAX;
            sizes (&r);
            uint32_t refs = 1, n = choose (80);
            for (uint32_t k = 0; k < n; k++) {
                switch (choose (6)) {
                case 0: case 1: write_some (&r, -1); break;
                case 2: case 3: read_some (&r); break;
                case 4: CHECK (hev_circular_buffer_ref (r.b) == r.b, "refs", "a reference is another object"); refs++; break;
                case 5: if (refs > 1) { hev_circular_buffer_unref (r.b); refs--; } break;
                }
                sizes (&r);
            }
            while (refs--)
                hev_circular_buffer_unref (r.b);
            nontrivial ();
        }
    });
    sys_run ();
    sys_fini ();
    lk.check ("after fini");
}
}
