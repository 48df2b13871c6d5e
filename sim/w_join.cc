// P07 join.
#include "w.h"
using namespace w;
namespace p07 {
struct J {
    Task *t;
    int joins = 0;            // joins under way
    bool ended = false;       // body finished (last thing it does)
    uint64_t result = 0;
    bool joined_ok = false;
    int runs = 0;
};
static std::vector<J *> js;
static uint32_t order;
SCENARIO ("P07", join, 1)
{
    machine_random (choose (4));
    at_cleanup ([] { for (auto j : js) delete j; js.clear (); });
    js.clear ();
    Leak lk;
    sys_init ();
    int n = range (1, 6);
    order = 0;
    uint32_t oks = 0, refused = 0;
    for (int i = 0; i < n; i++) {
        J *j = new J ();
        uint32_t ops = choose (5);
        bool early = choose (3) == 0;
        j->t = prepare ([j, ops, early] {
            for (uint32_t k = 0; k < ops; k++)
                switch (choose (3)) {
                case 0: yield (); break;
                case 1: hev_task_usleep (1 + noise () % 5000); break;
                case 2: {
                    // an unrelated join wakes its target: waits must tolerate that
                    uint64_t d = now () + ms (range (1, 30));
                    while (now () < d)
                        hev_task_usleep ((d - now ()) / 1000 + 1);
                    break; }
                }
            j->result = 1000 + j->t->id;
            j->ended = true;
            if (early) {
                TR ("task %d exits early", j->t->id);
                j->t->done = true;
                probe ("joined task exits early");
                hev_task_exit ();
                fail ("exit", "hev_task_exit returned");
            }
        }, rprio ());
        js.push_back (j);
    }
    for (auto j : js)
        if (choose (4))
            start (j->t), j->runs = 1;
    int nj = range (1, 6);
    for (int i = 0; i < nj; i++) {
        uint32_t cnt = range (1, 3);
        spawn ([cnt, &oks, &refused] {
            for (uint32_t c = 0; c < cnt; c++) {
                switch (choose (3)) {
                case 0: break;
                case 1: yield (); break;
                case 2: hev_task_usleep (1 + noise () % 9000); break;
                }
                J *j = js[choose (js.size ())];
                if (!j->runs)
                    start (j->t), j->runs = 1;
                bool was_joined = j->joins > 0;
                bool was_ended = j->ended;
                uint64_t t0 = turn_no;
                if (was_ended)
                    probe ("join after the end");
                if (was_joined)
                    probe ("second join while joined");
                j->joins++;
                uint32_t more = choose (4) ? 0 : 1 + choose (3);
                for (uint32_t k = 0; k < more; k++)
                    hev_task_ref (j->t->t);
                self ()->what = "join";
                TR ("task %d joins task %d (%s)", self ()->id, j->t->id, was_ended ? "ended" : "running");
                int r = hev_task_join (j->t->t);
                turn_no++;
                j->joins--;
                CHECK (r == 0 || r == -1, "result", "join returns %d", r);
                if (was_joined) {
                    // once the task has ended the first join is as good as over
                    if (!was_ended)
                        CHECK (r == -1, "refused", "a second join while the task is being joined is not refused");
                } else
                    // nobody else was joining when we began: success is due
                    CHECK (r == 0, "result", "join of a task that nobody else joins fails");
                if (r == 0) {
                    oks++;
                    CHECK (j->ended, "early", "join succeeded although the task has not ended");
                    CHECK (hev_task_get_state (j->t->t) == HEV_TASK_STOPPED, "early", "join succeeded although the task's state is not stopped");
                    CHECK (j->result == 1000u + j->t->id, "outcome", "outcome of the joined task is not visible");
                } else
                    refused++;
                for (uint32_t k = 0; k < more; k++)
                    hev_task_unref (j->t->t);
                (void)t0;
            }
        }, rprio ());
    }
    maybe_disturbers ();
    sys_run ();
    CHECK (oks + refused > 0, "none", "no join happened");
    // ended tasks can be run and joined again
    if (choose (3) == 0) {
        J *j = js[0];
        if (j->runs && j->ended) {
            probe ("joined task run again");
            hev_task_ref (j->t->t);
            j->t->started = j->t->done = false;
            j->ended = false;
            j->result = 0;
            start (j->t);
            spawn ([j] {
                if (choose (2)) yield ();
                self ()->what = "join after a re-run";
                int r = hev_task_join (j->t->t);
                CHECK (r == 0, "result", "join of a task that was run again fails");
                if (r == 0)
                    CHECK (j->ended && hev_task_get_state (j->t->t) == HEV_TASK_STOPPED, "early", "join of a task run again succeeds before its end");
            });
            sys_run ();
        }
    }
    for (auto j : js)
        if (!j->runs)
            hev_task_unref (j->t->t);   // never run: the creation reference is ours
    sys_fini ();
    lk.check ("after fini");
    note ("%d tasks, %u joins succeeded, %u refused", n, oks, refused);
    nontrivial ();
}
}
