// Driver: seeded search over simulated runs, minimiser, replay, statistics.
#include "internal.h"
#include <algorithm>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fstream>
#include <sstream>
#include <set>
#include <map>
#include <unordered_set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace sim;
extern const char *sim_variant_name, *sim_variant_features;
namespace sim {
const char *variant () { return sim_variant_name; }
bool variant_has (const char *f) { return strstr (sim_variant_features, f) != nullptr; }
}

static double wall ()
{
    struct timespec t;
    clock_gettime (CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}
static uint64_t seed_of (uint64_t master, const char *prop, uint64_t i)
{
    uint64_t h = master * 0x9e3779b97f4a7c15ull + 0x1234;
    for (const char *p = prop; *p; p++)
        h = (h ^ (uint8_t)*p) * 1099511628211ull;
    for (const char *p = variant (); *p; p++)
        h = (h ^ (uint8_t)*p) * 1099511628211ull;
    h ^= (i + 1) * 0xbf58476d1ce4e5b9ull;
    h ^= h >> 31;
    h *= 0x94d049bb133111ebull;
    h ^= h >> 29;
    return h;
}

struct Named { char name[64]; uint64_t n; };
struct WStat {
    double most;                               // largest part of its step limit a run used
    uint64_t runs, discarded, nontrivial, steps, events, choices, accesses;
    double simtime;
    uint64_t faults[F_N];
    uint64_t fault_runs[F_N];
    Named probes[192];
    Named scen[64];
    uint64_t current;       // run index under way
    int busy;
    char samples[6][512];
    int nsamples;
    // violation
    int found;
    uint64_t vindex, vseed;
    char oracle[64], message[512], scenario[64];
};
struct Shared {
    volatile uint64_t next;
    volatile int stop;
    uint64_t total;
};
static void bump (Named *t, int n, const char *name, uint64_t by)
{
    for (int i = 0; i < n; i++) {
        if (!t[i].name[0])
            snprintf (t[i].name, sizeof t[i].name, "%s", name);
        if (!strncmp (t[i].name, name, sizeof t[i].name - 1)) {
            t[i].n += by;
            return;
        }
    }
}
static void *shm (size_t n)
{
    void *p = mmap (0, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) {
        perror ("mmap");
        exit (3);
    }
    return p;
}

static void worker (const char *prop, uint64_t master, Shared *sh, WStat *w, uint64_t *hashes, uint64_t *ihash, uint8_t *nt,
                    double deadline)
{
    prctl (PR_SET_PDEATHSIG, SIGKILL);
    install_handlers ();
    uint64_t done = 0;
    while (!sh->stop && wall () < deadline) {
        uint64_t i = __sync_fetch_and_add (&sh->next, 1);
        if (i >= sh->total)
            _exit (0);
        w->current = i;
        w->busy = 1;
        uint64_t seed = seed_of (master, prop, i);
        run_once (prop, seed, nullptr, false);
        w->busy = 0;
        w->runs++;
        w->discarded += R.discarded;
        w->nontrivial += R.nontrivial;
        w->steps += R.steps;
        w->most = std::max (w->most, (double)R.steps / R.step_limit);
        w->events += R.events;
        w->choices += R.pos;
        w->accesses += R.accesses;
        w->simtime += R.simtime * 1e-9;
        for (int f = 0; f < F_N; f++) {
            w->faults[f] += R.faults[f];
            w->fault_runs[f] += !!R.faults[f];
        }
        for (auto &p : R.probes)
            bump (w->probes, 192, p.first, p.second);
        bump (w->scen, 64, R.scenario, 1);
        hashes[i] = R.hash;
        ihash[i] = R.ihash;
        nt[i] = R.nontrivial;
        if (w->nsamples < 6 && R.nontrivial && !R.note.empty () && R.oracle.empty ())
            snprintf (w->samples[w->nsamples++], 512, "run %llu seed %llu %s: %s", (unsigned long long)i,
                      (unsigned long long)seed, R.scenario, R.note.c_str ());
        if (!R.oracle.empty ()) {
            w->found = 1;
            w->vindex = i;
            w->vseed = seed;
            snprintf (w->oracle, sizeof w->oracle, "%s", R.oracle.c_str ());
            snprintf (w->message, sizeof w->message, "%s", R.message.c_str ());
            snprintf (w->scenario, sizeof w->scenario, "%s", R.scenario);
            sh->stop = 1;
            _exit (0);
        }
        if (++done >= 1500)
            _exit (77);
    }
    _exit (0);
}

// ---- one run in a child -----------------------------------------------------
struct One {
    int done;
    char oracle[64], message[512], scenario[64];
    uint64_t hash, used, nchoices;
    uint32_t choices[200001];
};
static One *one;
static bool run_child (const char *prop, uint64_t seed, const std::vector<uint32_t> *replay, bool record)
{
    if (!one)
        one = (One *)shm (sizeof (One));
    one->done = 0;
    one->oracle[0] = 0;
    fflush (stdout);
    pid_t p = fork ();
    if (!p) {
        prctl (PR_SET_PDEATHSIG, SIGKILL);
        install_handlers ();
        run_once (prop, seed, replay, record);
        snprintf (one->oracle, sizeof one->oracle, "%s", R.oracle.c_str ());
        snprintf (one->message, sizeof one->message, "%s", R.message.c_str ());
        snprintf (one->scenario, sizeof one->scenario, "%s", R.scenario);
        one->hash = R.hash;
        one->used = R.pos;
        one->nchoices = 0;
        if (record) {
            one->nchoices = R.choices.size ();
            if (one->nchoices)
                memcpy (one->choices, R.choices.data (), one->nchoices * 4);
        }
        one->done = 1;
        _exit (0);
    }
    int st;
    while (waitpid (p, &st, 0) < 0 && errno == EINTR) {}
    if (!one->done) {
        snprintf (one->oracle, sizeof one->oracle, "crash");
        snprintf (one->message, sizeof one->message, "the simulated process dies (status %d)", st);
        one->hash = 0;
        one->used = 0;
        return true;
    }
    return one->oracle[0] != 0;
}
static uint64_t tries;
static bool still (const char *prop, std::vector<uint32_t> &c, const std::string &oracle)
{
    tries++;
    bool v = run_child (prop, 0, &c, false);
    if (!v || oracle != one->oracle)
        return false;
    if (one->used && one->used < c.size ())
        c.resize (one->used);
    return true;
}
static std::vector<uint32_t> minimise (const char *prop, std::vector<uint32_t> c, const std::string &oracle, double budget)
{
    double end = wall () + budget;
    std::vector<uint32_t> t = c;
    if (!still (prop, t, oracle))
        return c;
    c = t;
    bool progress = true;
    for (int pass = 0; progress && pass < 6 && wall () < end; pass++) {
        progress = false;
        // cut the tail
        for (size_t k = c.size () / 2; k >= 1 && wall () < end; k /= 2) {
            while (c.size () > k && wall () < end) {
                t.assign (c.begin (), c.end () - k);
                if (!still (prop, t, oracle))
                    break;
                c = t;
                progress = true;
            }
        }
        // delete chunks
        for (size_t k = std::max<size_t> (1, c.size () / 4); k >= 1 && wall () < end; k = k > 1 ? k / 2 : 0) {
            for (size_t i = 0; i + k <= c.size () && wall () < end;) {
                t = c;
                t.erase (t.begin () + i, t.begin () + i + k);
                if (still (prop, t, oracle) && t.size () < c.size ()) {
                    c = t;
                    progress = true;
                } else
                    i += k;
            }
        }
        // zero chunks
        for (size_t k = std::max<size_t> (1, c.size () / 4); k >= 1 && wall () < end; k = k > 1 ? k / 2 : 0) {
            for (size_t i = 0; i + k <= c.size () && wall () < end; i += k) {
                bool nz = false;
                for (size_t j = i; j < i + k; j++)
                    nz |= c[j] != 0;
                if (!nz)
                    continue;
                t = c;
                for (size_t j = i; j < i + k; j++)
                    t[j] = 0;
                if (still (prop, t, oracle)) {
                    c = t;
                    progress = true;
                }
            }
        }
        // smaller values
        for (size_t i = 0; i < c.size () && wall () < end; i++) {
            while (i < c.size () && c[i] > 1 && wall () < end) {
                t = c;
                t[i] /= 2;
                if (!still (prop, t, oracle))
                    break;
                c = t;
                progress = true;
            }
            if (i < c.size () && c[i] > 0 && wall () < end) {
                t = c;
                t[i]--;
                if (still (prop, t, oracle)) {
                    c = t;
                    progress = true;
                }
            }
        }
    }
    return c;
}

static std::string jesc (const std::string &s)
{
    std::string o;
    char b[8];
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
        else if (ch < 32 || ch > 126) { snprintf (b, sizeof b, "\\u%04x", ch); o += b; }
        else o += ch;
    }
    return o;
}

static int do_replay (const char *path, bool quiet)
{
    std::ifstream f (path);
    std::string line, prop, oracle, var, message;
    uint64_t hash = 0;
    std::vector<uint32_t> c;
    while (std::getline (f, line)) {
        std::istringstream is (line);
        std::string k;
        is >> k;
        if (k == "property") is >> prop;
        else if (k == "variant") is >> var;
        else if (k == "oracle") is >> oracle;
        else if (k == "message") std::getline (is, message);
        else if (k == "hash") is >> std::hex >> hash;
        else if (k == "choices") { uint32_t v; while (is >> v) c.push_back (v); }
        else if (k == "---") break;
    }
    if (prop.empty ()) {
        fprintf (stderr, "cannot read %s\n", path);
        return 3;
    }
    if (var != variant ()) {
        fprintf (stderr, "replay file is for library variant %s\n", var.c_str ());
        return 3;
    }
    install_handlers ();
    tracing = true;
    run_once (prop.c_str (), 0, &c, false);
    tracing = false;
    if (!quiet)
        for (auto &l : R.tracelog)
            puts (l.c_str ());
    if (R.oracle.empty ()) {
        if (!quiet)
            puts ("replay: no violation");
        return 0;
    }
    if (!quiet)
        printf ("replay: %s: %s (hash %llx, recorded %llx)\n", R.oracle.c_str (), R.message.c_str (),
                (unsigned long long)R.hash, (unsigned long long)hash);
    printf ("VIOLATION property=%s replay=%s\n", prop.c_str (), path);
    return R.oracle == oracle && (hash == 0 || R.hash == hash) ? 1 : 4;
}

int main (int argc, char **argv)
{
    std::map<std::string, std::string> o;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a.substr (0, 2) == "--" && i + 1 < argc && strncmp (argv[i + 1], "--", 2))
            o[a.substr (2)] = argv[++i];
        else
            o[a.substr (2)] = "1";
    }
    if (o.count ("list")) {
        for (auto &s : scenarios ())
            printf ("%s %s %u\n", s.prop, s.name, s.weight);
        return 0;
    }
    if (o.count ("only"))
        only_scenario = strdup (o["only"].c_str ());
    if (o.count ("replay"))
        return do_replay (o["replay"].c_str (), o.count ("quiet"));
    std::string prop = o["prop"];
    uint64_t master = o.count ("seed") ? strtoull (o["seed"].c_str (), 0, 10) : 1;
    if (o.count ("one")) {
        uint64_t i = strtoull (o["one"].c_str (), 0, 10);
        install_handlers ();
        tracing = true;
        run_once (prop.c_str (), o.count ("raw") ? i : seed_of (master, prop.c_str (), i), nullptr, true);
        tracing = false;
        for (auto &l : R.tracelog)
            puts (l.c_str ());
        printf ("scenario %s hash %llx steps %llu choices %zu simtime %.6f note: %s\n", R.scenario,
                (unsigned long long)R.hash, (unsigned long long)R.steps, R.choices.size (), R.simtime * 1e-9, R.note.c_str ());
        if (!R.oracle.empty ()) {
            printf ("violated %s: %s\n", R.oracle.c_str (), R.message.c_str ());
            return 1;
        }
        return 0;
    }
    uint64_t runs = o.count ("runs") ? strtoull (o["runs"].c_str (), 0, 10) : 1000;
    int jobs = o.count ("jobs") ? atoi (o["jobs"].c_str ()) : 8;
    double cap = o.count ("time") ? atof (o["time"].c_str ()) : 60;
    double t0 = wall ();
    double deadline = t0 + cap;
    Shared *sh = (Shared *)shm (sizeof (Shared));
    sh->total = runs;
    WStat *ws = (WStat *)shm (sizeof (WStat) * jobs);
    uint64_t *hashes = (uint64_t *)shm ((runs + 1) * 8);
    uint64_t *ihash = (uint64_t *)shm ((runs + 1) * 8);
    uint8_t *nt = (uint8_t *)shm (runs + 1);
    std::vector<pid_t> pid (jobs);
    auto start = [&] (int j) {
        fflush (stdout);
        pid[j] = fork ();
        if (!pid[j])
            worker (prop.c_str (), master, sh, &ws[j], hashes, ihash, nt, deadline);
    };
    for (int j = 0; j < jobs; j++)
        start (j);
    int live = jobs;
    while (live) {
        int st;
        pid_t p = wait (&st);
        if (p < 0) {
            if (errno == EINTR)
                continue;
            break;
        }
        for (int j = 0; j < jobs; j++)
            if (pid[j] == p) {
                if (WIFEXITED (st) && WEXITSTATUS (st) == 77) {
                    start (j);
                    break;
                }
                if ((!WIFEXITED (st) || WEXITSTATUS (st)) && !ws[j].found) {
                    if (WIFEXITED (st) && WEXITSTATUS (st) == 3)
                        return 3;
                    ws[j].found = 2;
                    ws[j].vindex = ws[j].current;
                    ws[j].vseed = seed_of (master, prop.c_str (), ws[j].current);
                    snprintf (ws[j].oracle, 64, "crash");
                    snprintf (ws[j].message, 512, "the simulated process dies (status %d)", st);
                    sh->stop = 1;
                }
                live--;
            }
    }
    double t1 = wall ();
    // merge
    WStat t;
    memset (&t, 0, sizeof t);
    std::map<std::string, uint64_t> probes, scen;
    std::vector<std::string> samples;
    for (int j = 0; j < jobs; j++) {
        WStat &w = ws[j];
        t.runs += w.runs; t.discarded += w.discarded; t.nontrivial += w.nontrivial;
        t.most = std::max (t.most, w.most);
        t.steps += w.steps; t.events += w.events; t.choices += w.choices; t.accesses += w.accesses; t.simtime += w.simtime;
        for (int f = 0; f < F_N; f++) { t.faults[f] += w.faults[f]; t.fault_runs[f] += w.fault_runs[f]; }
        for (auto &p : w.probes) if (p.name[0]) probes[p.name] += p.n;
        for (auto &p : w.scen) if (p.name[0]) scen[p.name] += p.n;
        if (w.nsamples) samples.push_back (w.samples[0]);
        for (int k = 1; k < w.nsamples && j < 2; k++) samples.push_back (w.samples[k]);
    }
    std::unordered_set<uint64_t> dist, distn;
    uint64_t all = 0;
    for (uint64_t i = 0; i < runs; i++) {
        if (ihash[i]) dist.insert (ihash[i]);
        if (ihash[i] && nt[i]) distn.insert (ihash[i]);
        all = (all ^ hashes[i]) * 0x9e3779b97f4a7c15ull;
        all ^= all >> 31;
    }
    std::vector<int> order;
    for (int j = 0; j < jobs; j++)
        if (ws[j].found)
            order.push_back (j);
    std::sort (order.begin (), order.end (), [&] (int a, int b) { return ws[a].vindex < ws[b].vindex; });
    int rc = 0;
    std::string vtxt;
    std::string rep = o.count ("replay-out") ? o["replay-out"] : "";
    for (int j : order) {
        WStat &w = ws[j];
        printf ("candidate: run %llu seed %llu scenario %s oracle %s: %s\n", (unsigned long long)w.vindex,
                (unsigned long long)w.vseed, w.scenario, w.oracle, w.message);
        bool v1 = run_child (prop.c_str (), w.vseed, nullptr, true);
        std::string o1 = one->oracle, m1 = one->message;
        uint64_t h1 = one->hash;
        std::vector<uint32_t> c (one->choices, one->choices + one->nchoices);
        bool v2 = run_child (prop.c_str (), w.vseed, nullptr, true);
        if (!v1 || !v2 || o1 != one->oracle || h1 != one->hash || o1 != w.oracle) {
            printf ("gate: not repeatable (%s/%llx then %s/%llx, search saw %s)\n", o1.c_str (), (unsigned long long)h1,
                    one->oracle, (unsigned long long)one->hash, w.oracle);
            rc = rc == 1 ? 1 : 2;
            continue;
        }
        // a crash that killed the process keeps no recorded choices: use the seed's own stream
        double mb = o.count ("minimise") ? atof (o["minimise"].c_str ()) : 20;
        size_t before = c.size ();
        std::vector<uint32_t> m = c;
        if (!c.empty () && mb > 0)
            m = minimise (prop.c_str (), c, o1, mb);
        for (int attempt = 0; attempt < 2; attempt++) {
            run_child (prop.c_str (), 0, &m, true);
            uint64_t h = one->hash;
            std::string msg = one->message, sc = one->scenario, orc = one->oracle;
            // trace
            tracing = true;
            int pfd[2];
            if (pipe (pfd)) return 3;
            fflush (stdout);
            pid_t p = fork ();
            if (!p) {
                install_handlers ();
                run_once (prop.c_str (), 0, &m, false);
                FILE *f = fdopen (pfd[1], "w");
                size_t n = R.tracelog.size (), from = n > 3000 ? n - 3000 : 0;
                for (size_t i = from; i < n; i++)
                    fprintf (f, "%s\n", R.tracelog[i].c_str ());
                fflush (f);
                _exit (0);
            }
            tracing = false;
            close (pfd[1]);
            std::string tr;
            char buf[4096];
            ssize_t k;
            while ((k = read (pfd[0], buf, sizeof buf)) > 0)
                tr.append (buf, k);
            close (pfd[0]);
            waitpid (p, NULL, 0);
            if (!rep.empty ()) {
                std::ofstream f (rep);
                f << "# simulation replay file: run with  sim-" << variant () << " --replay <this file>\n";
                f << "property " << prop << "\nvariant " << variant () << "\nscenario " << sc << "\nseed " << w.vseed
                  << "\nrun " << w.vindex << "\nmaster " << master << "\noracle " << orc << "\nmessage " << msg << "\nhash "
                  << std::hex << h << std::dec << "\noriginal_choices " << before << "\nchoices";
                for (auto x : m) f << " " << x;
                f << "\n--- trace\n" << tr;
                f.close ();
                fflush (stdout);
                pid_t q = fork ();
                if (!q) {
                    execl ("/proc/self/exe", "sim", "--replay", rep.c_str (), only_scenario ? "--only" : "--quiet", only_scenario ? only_scenario : (char *)NULL, "--quiet", (char *)NULL);
                    _exit (9);
                }
                int st;
                waitpid (q, &st, 0);
                if (!WIFEXITED (st) || (WEXITSTATUS (st) != 1 && !(orc == "crash" && h == 0))) {
                    printf ("gate: fresh process replay does not reproduce (status %d)%s\n", st, attempt ? "" : ", retrying unminimised");
                    if (attempt == 0) { rename (rep.c_str (), (rep + ".unreproduced").c_str ()); m = c; continue; }
                    rc = rc == 1 ? 1 : 2;
                    break;
                }
            }
            printf ("violation: %s: %s: %s\n  %zu choices after minimising %zu (%llu attempts)\n", sc.c_str (), orc.c_str (), msg.c_str (),
                    m.size (), before, (unsigned long long)tries);
            vtxt = sc + ": " + orc + ": " + msg;
            rc = 1;
            break;
        }
        if (rc == 1)
            break;
    }
    if (o.count ("stats")) {
        FILE *f = fopen (o["stats"].c_str (), "w");
        fprintf (f, "{\"variant\":\"%s\",\"prop\":\"%s\",\"seed\":%llu,\"requested\":%llu,\"runs\":%llu,\"discarded\":%llu,\"nontrivial\":%llu,"
                 "\"distinct\":%zu,\"distinct_nontrivial\":%zu,\"steps\":%llu,\"events\":%llu,\"choices\":%llu,\"accesses\":%llu,\"simtime_s\":%.6f,"
                 "\"wall_s\":%.3f,\"all_hash\":\"%016llx\",\"rc\":%d,\"violation\":\"%s\",\n",
                 variant (), prop.c_str (), (unsigned long long)master, (unsigned long long)runs, (unsigned long long)t.runs,
                 (unsigned long long)t.discarded, (unsigned long long)t.nontrivial, dist.size (), distn.size (),
                 (unsigned long long)t.steps, (unsigned long long)t.events, (unsigned long long)t.choices, (unsigned long long)t.accesses, t.simtime, t1 - t0,
                 (unsigned long long)all, rc, jesc (vtxt).c_str ());
        fprintf (f, "\"faults\":{");
        bool first = true;
        for (int k = 0; k < F_N; k++)
            if (t.faults[k]) { fprintf (f, "%s\"%s\":[%llu,%llu]", first ? "" : ",", fault_name[k], (unsigned long long)t.faults[k], (unsigned long long)t.fault_runs[k]); first = false; }
        fprintf (f, "},\n\"probes\":{");
        first = true;
        for (auto &p : probes) { fprintf (f, "%s\"%s\":%llu", first ? "" : ",", jesc (p.first).c_str (), (unsigned long long)p.second); first = false; }
        fprintf (f, "},\n\"scenarios\":{");
        first = true;
        for (auto &p : scen) { fprintf (f, "%s\"%s\":%llu", first ? "" : ",", jesc (p.first).c_str (), (unsigned long long)p.second); first = false; }
        fprintf (f, "},\n\"samples\":[");
        first = true;
        for (auto &s : samples) { fprintf (f, "%s\"%s\"", first ? "" : ",", jesc (s).c_str ()); first = false; }
        fprintf (f, "]}\n");
        fclose (f);
    }
    if (o.count ("verbose")) {
        printf ("%s/%s: runs %llu (nontrivial %llu, discarded %llu) distinct %zu in %.2fs = %.0f/s, simtime %.1fs, steps/run %.0f (at most %.2f of the limit), choices/run %.0f hash %016llx\n",
                prop.c_str (), variant (), (unsigned long long)t.runs, (unsigned long long)t.nontrivial, (unsigned long long)t.discarded,
                dist.size (), t1 - t0, t.runs / (t1 - t0), t.simtime, t.runs ? (double)t.steps / t.runs : 0., t.most, t.runs ? (double)t.choices / t.runs : 0., (unsigned long long)all);
        for (auto &p : scen) printf ("  scenario %s: %llu\n", p.first.c_str (), (unsigned long long)p.second);
        for (auto &p : probes) printf ("  probe %s: %llu\n", p.first.c_str (), (unsigned long long)p.second);
        for (int k = 0; k < F_N; k++) if (t.faults[k]) printf ("  fault %s: %llu (in %llu runs)\n", fault_name[k], (unsigned long long)t.faults[k], (unsigned long long)t.fault_runs[k]);
        for (size_t k = 0; k < samples.size () && k < 3; k++) printf ("  %s\n", samples[k].c_str ());
    }
    if (rc == 0 && t.runs == 0)
        rc = 2;
    return rc;
}
