// Stacks of composable streams.
#pragma once
#include "w_stream.h"

// the stream headers are C only
extern "C" {
typedef struct _HevTaskCIO HevTaskCIO;
typedef struct _HevTaskCIOBuffer HevTaskCIOBuffer;
int g_cio_err (HevTaskCIO *);
void g_ref (void *);
void g_unref (void *);
HevTaskCIO *g_pass_new (void);
HevTaskCIO *g_tpass_new (int id, void (*gone) (int));
void *g_obj_new (int, void (*) (int));
void *g_aobj_new (int, void (*) (int));
HevTaskCIO *hev_task_cio_push (HevTaskCIO *, HevTaskCIO *);
HevTaskCIO *hev_task_cio_pop (HevTaskCIO *);
int hev_task_cio_get_fd (HevTaskCIO *, int);
ssize_t hev_task_cio_read (HevTaskCIO *, void *, size_t, HevTaskIOYielder, void *);
ssize_t hev_task_cio_read_exact (HevTaskCIO *, void *, size_t, HevTaskIOYielder, void *);
ssize_t hev_task_cio_readv (HevTaskCIO *, const struct iovec *, int, HevTaskIOYielder, void *);
ssize_t hev_task_cio_readv_exact (HevTaskCIO *, const struct iovec *, int, HevTaskIOYielder, void *);
ssize_t hev_task_cio_write (HevTaskCIO *, const void *, size_t, HevTaskIOYielder, void *);
ssize_t hev_task_cio_write_exact (HevTaskCIO *, const void *, size_t, HevTaskIOYielder, void *);
ssize_t hev_task_cio_writev (HevTaskCIO *, const struct iovec *, int, HevTaskIOYielder, void *);
ssize_t hev_task_cio_writev_exact (HevTaskCIO *, const struct iovec *, int, HevTaskIOYielder, void *);
ssize_t hev_task_cio_read_dgram (HevTaskCIO *, void *, size_t, void *, HevTaskIOYielder, void *);
ssize_t hev_task_cio_readv_dgram (HevTaskCIO *, const struct iovec *, int, void *, HevTaskIOYielder, void *);
ssize_t hev_task_cio_write_dgram (HevTaskCIO *, const void *, size_t, const void *, HevTaskIOYielder, void *);
ssize_t hev_task_cio_writev_dgram (HevTaskCIO *, const struct iovec *, int, const void *, HevTaskIOYielder, void *);
int hev_task_cio_flush (HevTaskCIO *, HevTaskIOYielder, void *);
void hev_task_cio_splice (HevTaskCIO *, HevTaskCIO *, size_t, HevTaskIOYielder, void *);
HevTaskCIO *hev_task_cio_fd_new (int, int);
HevTaskCIO *hev_task_cio_socket_new (int, int);
HevTaskCIO *hev_task_cio_null_new (void);
HevTaskCIO *hev_task_cio_buffer_new (size_t, size_t);
ssize_t hev_task_cio_buffer_peek (HevTaskCIOBuffer *, void *, size_t);
int hev_task_cio_buffer_peekv (HevTaskCIOBuffer *, struct iovec *);
}

namespace w {
struct Layer { HevTaskCIO *c; int kind; size_t r, w; };   // kind: 0 bottom 1 buffer 2 pass through
struct Stack {
    std::vector<Layer> l;      // bottom first
    int fdi = -1, fdo = -1;
    HevTaskCIO *top () { return l.back ().c; }
    bool peekable () { return l.size () > 1 && l.back ().kind == 1 && l.back ().r; }
    size_t wlayers () { size_t n = 0; for (auto &x : l) n += x.w > 0; return n; }
    size_t wcap () { size_t n = 0; for (auto &x : l) n += x.w; return n; }
};
HevTaskCIO *bottom_new (int fdi, int fdo, bool sock);
void stack_open (Stack &s, int fdi, int fdo, bool sock, uint32_t max_layers);
void stack_push (Stack &s, bool wonly = false);
void stack_pop (Stack &s);
void stack_close (Stack &s);                   // drops the last reference, checks the descriptors are closed
// op: 0 plain 1 exact 2 vector 3 vector exact
ssize_t cio_read_op (int op, HevTaskCIO *c, char *b, size_t n, HevTaskIOYielder y, void *yd);
ssize_t cio_write_op (int op, HevTaskCIO *c, const char *b, size_t n, HevTaskIOYielder y, void *yd);
extern const char *const cread_name[4], *const cwrite_name[4];
}
