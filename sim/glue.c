/* The parts of the public headers that are C only: inline functions and classes. */
#include <string.h>
#include <stdlib.h>
#include <hev-object.h>
#include <hev-object-atomic.h>
#include <hev-memory-allocator.h>
#include <hev-task.h>
#include <hev-task-io.h>
#include <hev-task-cio.h>

int g_cio_err (HevTaskCIO *c) { return c->err; }
void g_ref (void *o) { hev_object_ref (HEV_OBJECT (o)); }
void g_unref (void *o) { hev_object_unref (HEV_OBJECT (o)); }

/* a stream layer that adds nothing */
static HevTaskCIOClass pass_class;
static void
pass_destruct (HevObject *o)
{
    HEV_TASK_CIO_TYPE->destruct (o);
    hev_free (o);
}
HevTaskCIO *
g_pass_new (void)
{
    HevTaskCIO *c = hev_malloc0 (sizeof (HevTaskCIO));
    if (!c)
        return NULL;
    if (hev_task_cio_construct (c) < 0)
        abort ();
    memcpy (&pass_class, HEV_TASK_CIO_TYPE, sizeof pass_class);
    pass_class.base.name = "Pass";
    pass_class.base.destruct = pass_destruct;
    HEV_OBJECT (c)->klass = &pass_class.base;
    return c;
}

/* the same, reporting its end */
typedef struct { HevTaskCIO base; int id; void (*gone) (int); } TPass;
static HevTaskCIOClass tpass_class;
static void
tpass_destruct (HevObject *o)
{
    TPass *self = (TPass *)o;
    void (*gone) (int) = self->gone;
    int id = self->id;
    HEV_TASK_CIO_TYPE->destruct (o);
    hev_free (o);
    gone (id);
}
HevTaskCIO *
g_tpass_new (int id, void (*gone) (int))
{
    TPass *c = hev_malloc0 (sizeof (TPass));
    if (!c)
        return NULL;
    if (hev_task_cio_construct (&c->base) < 0)
        abort ();
    memcpy (&tpass_class, HEV_TASK_CIO_TYPE, sizeof tpass_class);
    tpass_class.base.name = "TPass";
    tpass_class.base.destruct = tpass_destruct;
    HEV_OBJECT (c)->klass = &tpass_class.base;
    c->id = id;
    c->gone = gone;
    return &c->base;
}

/* objects that report their end */
typedef struct { HevObject base; int id; void (*gone) (int); } Obj;
typedef struct { HevObjectAtomic base; int id; void (*gone) (int); } AObj;
static HevObjectClass obj_class, aobj_class;
static void
obj_destruct (HevObject *o)
{
    Obj *self = (Obj *)o;
    void (*gone) (int) = self->gone;
    int id = self->id;
    HEV_OBJECT_TYPE->destruct (o);
    hev_free (o);
    gone (id);
}
static void
aobj_destruct (HevObject *o)
{
    AObj *self = (AObj *)o;
    void (*gone) (int) = self->gone;
    int id = self->id;
    HEV_OBJECT_ATOMIC_TYPE->destruct (o);
    free (o);
    gone (id);
}
void *
g_obj_new (int id, void (*gone) (int))
{
    Obj *o = hev_malloc0 (sizeof (Obj));
    if (!o)
        return NULL;
    if (hev_object_construct (&o->base) < 0)
        abort ();
    memcpy (&obj_class, HEV_OBJECT_TYPE, sizeof obj_class);
    obj_class.name = "Obj";
    obj_class.destruct = obj_destruct;
    o->base.klass = &obj_class;
    o->id = id;
    o->gone = gone;
    return o;
}
/* shared between threads, so not from a thread's own allocator */
void *
g_aobj_new (int id, void (*gone) (int))
{
    AObj *o = calloc (1, sizeof (AObj));
    if (hev_object_atomic_construct (&o->base) < 0)
        abort ();
    memcpy (&aobj_class, HEV_OBJECT_ATOMIC_TYPE, sizeof aobj_class);
    aobj_class.name = "AObj";
    aobj_class.destruct = aobj_destruct;
    HEV_OBJECT (o)->klass = &aobj_class;
    o->id = id;
    o->gone = gone;
    return o;
}
