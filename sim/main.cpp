// Seeded search over simulated executions of one property, replay and minimisation.
#include "accel.h"
#include "scen.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>

using namespace sim;
using std::string;
using std::vector;

static double wall()
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}
static void on_signal(int sig, siginfo_t *si, void *uc)
{
    static volatile int once = 0;
    if (once++ == 0 && sh->status == ST_RUNNING) {
        const char *n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGFPE ? "SIGFPE" : sig == SIGBUS ? "SIGBUS" : sig == SIGXCPU ? "SIGXCPU" : "SIGILL";
        if (sig == SIGXCPU)
            snprintf(sh->vclass, sizeof sh->vclass, "hang");
        else
            snprintf(sh->vclass, sizeof sh->vclass, "crash-%s", n);
        snprintf(sh->vmsg, sizeof sh->vmsg, "the process %s with %s at pc 0x%llx (thread %u)", sig == SIGXCPU ? "never finished and was stopped" : "died", n,
                 (unsigned long long)((ucontext_t *)uc)->uc_mcontext.gregs[REG_RIP], self());
        sh->status = ST_VIOLATION;
    }
    (void)si;
    _exit(3);
}
static void on_terminate()
{
    if (sh->status == ST_RUNNING) {
        snprintf(sh->vclass, sizeof sh->vclass, "terminate");
        const char *w = "";
        try {
            if (std::current_exception())
                std::rethrow_exception(std::current_exception());
        } catch (const std::exception &e) {
            w = e.what();
            snprintf(sh->vmsg, sizeof sh->vmsg, "std::terminate was called, exception: %s", w);
        } catch (...) {
            snprintf(sh->vmsg, sizeof sh->vmsg, "std::terminate was called, unknown exception");
        }
        if (!*w && !sh->vmsg[0])
            snprintf(sh->vmsg, sizeof sh->vmsg, "std::terminate was called");
        sh->status = ST_VIOLATION;
    }
    _exit(3);
}
static int logfd = -1;
static bool infra = false;
static double cpu_limit = 100;

static void child(u32 inc)
{
    parent_mode = false;
    // the library's log output goes to a memory file which P14 inspects
    dup2(logfd, 1);
    int nul = open("/dev/null", O_WRONLY);
    if (!getenv("SIM_STDERR"))
        dup2(nul, 2);
    static char alt[65536];
    stack_t ss = {};
    ss.ss_sp = alt;
    ss.ss_size = sizeof alt;
    sigaltstack(&ss, nullptr);
    struct sigaction sa = {};
    sa.sa_sigaction = on_signal;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGXCPU})
        sigaction(s, &sa, nullptr);
    std::set_terminate(on_terminate);
    struct rlimit rl;
    rl.rlim_cur = (rlim_t)cpu_limit;
    rl.rlim_max = (rlim_t)cpu_limit + 5;
    setrlimit(RLIMIT_CPU, &rl);
    rl.rlim_cur = rl.rlim_max = 0;
    setrlimit(RLIMIT_CORE, &rl);
    sim::accel = spec.property != "P08" && mix2(spec.seed, 99) % 8 != 0;
    scen::run(spec.property, inc, logfd);
    _exit(0);
}
struct Out {
    u32 status = 0;
    string vclass, vmsg;
    u64 digest = 0;
    u32 incs = 0;
};
static Out execute(const Spec &sp)
{
    memset((void *)sh, 0, offsetof(Shared, sched));
    sh->nsched = sh->nfault = 0;
    w::disk_reset();
    if (ftruncate(logfd, 0)) {}
    lseek(logfd, 0, SEEK_SET);
    spec = sp;
    Out o;
    u64 digest = 0;
    for (u32 inc = 0;; inc++) {
        sh->status = ST_RUNNING;
        sh->inc = inc;
        sh->digest = 0;
        fflush(stdout);
        pid_t p = fork();
        if (p == 0) {
            child(inc);
            _exit(0);
        }
        int st = 0;
        double t0 = wall();
        for (;;) {
            pid_t r = waitpid(p, &st, WNOHANG);
            if (r == p)
                break;
            double dt = wall() - t0;
            if (dt > cpu_limit * 6) {
                kill(p, SIGKILL);
                waitpid(p, &st, 0);
                infra = true;
                o.status = ST_CUTOFF;
                o.vclass = "infra-timeout";
                return o;
            }
            struct timespec ts = {0, dt < 0.01 ? 200000 : dt < 0.5 ? 1000000 : 10000000};
            nanosleep(&ts, nullptr);
        }
        if (WIFSIGNALED(st) && sh->status == ST_RUNNING) {
            if (WTERMSIG(st) == SIGKILL) { // out of memory: says nothing about the property
                infra = true;
                o.status = ST_CUTOFF;
                o.vclass = "infra-killed";
                return o;
            }
            sh->status = ST_VIOLATION;
            snprintf(sh->vclass, sizeof sh->vclass, "crash-signal-%d", WTERMSIG(st));
            snprintf(sh->vmsg, sizeof sh->vmsg, "the process was killed by signal %d", WTERMSIG(st));
        } else if (sh->status == ST_RUNNING) {
            if (WIFEXITED(st) && WEXITSTATUS(st) == 70) {
                infra = true;
                sh->status = ST_CUTOFF;
            } else {
                sh->status = ST_VIOLATION;
                snprintf(sh->vclass, sizeof sh->vclass, "exit");
                snprintf(sh->vmsg, sizeof sh->vmsg, "the process ended by itself (status %d) in the middle of a call", WIFEXITED(st) ? WEXITSTATUS(st) : -1);
            }
        }
        digest = mix2(digest, sh->digest);
        o.incs = inc + 1;
        if (sh->status == ST_CRASHED_SIM && inc < 5)
            continue;
        break;
    }
    o.status = sh->status;
    o.vclass = sh->vclass;
    o.vmsg = sh->vmsg;
    o.digest = mix2(digest, mix2(o.status, std::hash<string>()(o.vclass + o.vmsg)));
    return o;
}
static Spec as_replay(const Spec &sp)
{
    Spec r = sp;
    r.replay = true;
    r.sched.assign(sh->sched, sh->sched + std::min(sh->nsched, MAXSCHED));
    r.faults.assign(sh->fault, sh->fault + std::min(sh->nfault, MAXFAULT));
    return r;
}
// ---------------------------------------------------------------- replay files
static string jesc(const string &s) { return w::json_str(s); }
static void save(const string &path, const Spec &s, const Out &o, bool minimised)
{
    std::ofstream f(path);
    f << "{\n\"property\": " << jesc(s.property) << ",\n\"seed\": \"" << s.seed << "\",\n\"warm\": " << s.warm << ",\n\"minimised\": " << minimised
      << ",\n\"class\": " << jesc(o.vclass) << ",\n\"violation\": " << jesc(o.vmsg) << ",\n\"digest\": \"" << o.digest << "\",\n\"drop\": [";
    for (size_t i = 0; i < s.drop.size(); i++)
        f << (i ? "," : "") << s.drop[i];
    f << "],\n\"sched\": [";
    for (size_t i = 0; i < s.sched.size(); i++) {
        auto &e = s.sched[i];
        f << (i ? ",\n " : "") << "[" << e.inc << "," << e.tid << "," << e.ctx << "," << e.cstep << "," << e.to << "]";
    }
    f << "],\n\"faults\": [";
    for (size_t i = 0; i < s.faults.size(); i++) {
        auto &e = s.faults[i];
        f << (i ? ",\n " : "") << "[" << e.kind << "," << e.ctx << "," << e.occ << "," << e.tid << ",\"" << e.arg << "\",\"" << fault_name[e.kind] << "\"]";
    }
    f << "]\n}\n";
}
static bool load(const string &path, Spec &s, string &cls, u64 &digest)
{
    std::ifstream f(path);
    if (!f)
        return false;
    std::stringstream ss;
    ss << f.rdbuf();
    string t = ss.str();
    auto at = [&](const string &k) { return t.find("\"" + k + "\":"); };
    auto strv = [&](const string &k) {
        size_t p = at(k);
        if (p == string::npos)
            return string();
        p = t.find('"', p + k.size() + 3);
        size_t e = p + 1;
        while (e < t.size() && t[e] != '"')
            e += t[e] == '\\' ? 2 : 1;
        return t.substr(p + 1, e - p - 1);
    };
    s.property = strv("property");
    s.seed = strtoull(strv("seed").c_str(), nullptr, 10);
    s.warm = t[at("warm") + 8] == '1';
    s.replay = true;
    cls = strv("class");
    digest = strtoull(strv("digest").c_str(), nullptr, 10);
    auto nums = [&](const string &k) {
        vector<u64> v;
        size_t p = t.find('[', at(k));
        int d = 0;
        for (size_t i = p; i < t.size(); i++) {
            if (t[i] == '[')
                d++;
            else if (t[i] == ']') {
                if (--d == 0)
                    break;
            } else if (t[i] == '"') { // a number too big for other readers, or a label
                size_t q = t.find('"', i + 1);
                if (q == string::npos)
                    break;
                if (isdigit((unsigned char)t[i + 1]))
                    v.push_back(strtoull(&t[i + 1], nullptr, 10));
                i = q;
            } else if (isdigit((unsigned char)t[i])) {
                v.push_back(strtoull(&t[i], nullptr, 10));
                while (isdigit((unsigned char)t[i + 1]))
                    i++;
            }
        }
        return v;
    };
    for (u64 x : nums("drop"))
        s.drop.push_back((u32)x);
    auto a = nums("sched");
    for (size_t i = 0; i + 4 < a.size(); i += 5)
        s.sched.push_back({(u32)a[i], (u32)a[i + 1], (u32)a[i + 2], (u32)a[i + 3], (u32)a[i + 4]});
    a = nums("faults");
    for (size_t i = 0; i + 4 < a.size(); i += 5)
        s.faults.push_back({(u32)a[i], (u32)a[i + 1], (u32)a[i + 2], (u32)a[i + 3], a[i + 4]});
    return s.property.size();
}
// ---------------------------------------------------------------- minimisation
template <class X>
static void ddmin(vector<X> &items, const std::function<bool(const vector<X> &)> &fails, double until)
{
    size_t n = 2;
    if (items.empty())
        return;
    if (fails({})) {
        items.clear();
        return;
    }
    while (items.size() >= 2 && wall() < until) {
        size_t chunk = (items.size() + n - 1) / n;
        bool reduced = false;
        for (size_t i = 0; i < items.size() && wall() < until; i += chunk) {
            vector<X> c(items.begin(), items.begin() + i);
            c.insert(c.end(), items.begin() + std::min(i + chunk, items.size()), items.end());
            if (c.size() < items.size() && fails(c)) {
                items = c;
                n = std::max<size_t>(n - 1, 2);
                reduced = true;
                break;
            }
        }
        if (!reduced) {
            if (chunk == 1)
                break;
            n = std::min(items.size(), n * 2);
        }
    }
}
static Spec minimise(Spec s, const string &cls, u32 nops, double budget)
{
    double until = wall() + budget;
    auto fails = [&](const Spec &x) {
        Out o = execute(x);
        return o.status == ST_VIOLATION && o.vclass == cls;
    };
    // operations: the kept set is reduced
    vector<u32> keep;
    for (u32 i = 0; i < nops; i++)
        keep.push_back(i);
    auto todrop = [&](const vector<u32> &k) {
        std::set<u32> in(k.begin(), k.end());
        vector<u32> d;
        for (u32 i = 0; i < nops; i++)
            if (!in.count(i))
                d.push_back(i);
        return d;
    };
    if (nops > 0 && nops < 2000)
        ddmin<u32>(keep, [&](const vector<u32> &k) { Spec x = s; x.drop = todrop(k); return fails(x); }, until - budget / 2);
    if (nops > 0 && nops < 2000)
        s.drop = todrop(keep);
    ddmin<FaultEnt>(s.faults, [&](const vector<FaultEnt> &k) { Spec x = s; x.faults = k; return fails(x); }, until - budget / 3);
    ddmin<SchedEnt>(s.sched, [&](const vector<SchedEnt> &k) { Spec x = s; x.sched = k; return fails(x); }, until);
    return s;
}
// ---------------------------------------------------------------- known findings (read only)
struct Known { string property, cls, contains, what; };
static vector<Known> known;
static void load_known(const string &path)
{
    std::ifstream f(path);
    string line;
    // lines: finding: property=<id> class=<class> match=<text> | <what fails>
    while (std::getline(f, line)) {
        if (line.compare(0, 8, "finding:"))
            continue;
        Known k;
        auto get = [&](const string &key, const string &end) {
            size_t p = line.find(key + "=");
            if (p == string::npos)
                return string();
            p += key.size() + 1;
            return line.substr(p, line.find(end, p) - p);
        };
        k.property = get("property", " ");
        k.cls = get("class", " ");
        k.contains = get("match", " |");
        size_t p = line.find("| ");
        k.what = p == string::npos ? "" : line.substr(p + 2);
        known.push_back(k);
    }
}
static int known_index(const string &prop, const Out &o)
{
    for (size_t i = 0; i < known.size(); i++)
        if (known[i].property == prop && known[i].cls == o.vclass && o.vmsg.find(known[i].contains) != string::npos)
            return (int)i;
    return -1;
}
static void *shmap(size_t n)
{
    void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) {
        perror("mmap");
        exit(70);
    }
    return p;
}
int main(int argc, char **argv)
{
    parent_mode = true;
    setenv("TZ", "UTC", 1);
    tzset();
    std::map<string, string> a;
    for (int i = 1; i + 1 < argc; i += 2)
        a[argv[i]] = argv[i + 1];
    sh = (Shared *)shmap(sizeof(Shared));
    w::disk = (w::Disk *)shmap(sizeof(w::Disk));
    logfd = memfd_create("log", 0);
    if (a.count("--cpu"))
        cpu_limit = atof(a["--cpu"].c_str());
    parent_mode = false;
    w::init_keys();
    scen::init();
    parent_mode = true;
    if (a.count("--known"))
        load_known(a["--known"]);

    if (a.count("--replay")) {
        Spec s;
        string cls;
        u64 dg;
        if (!load(a["--replay"], s, cls, dg)) {
            fprintf(stderr, "cannot read replay file\n");
            return 2;
        }
        Out o = execute(s);
        printf("status=%u class=%s digest=%lu expected=%lu\n%s\n", o.status, o.vclass.c_str(), o.digest, dg, o.vmsg.c_str());
        if (a.count("--trace")) {
            for (u32 i = 0; i < sh->nsched && i < MAXSCHED; i++)
                printf("sched inc=%u tid=%u ctx=%u step=%u -> %u\n", sh->sched[i].inc, sh->sched[i].tid, sh->sched[i].ctx, sh->sched[i].cstep, sh->sched[i].to);
        }
        if (o.status == ST_VIOLATION && o.digest == dg)
            return 1;
        return o.status == ST_VIOLATION ? 4 : 0;
    }
    string prop = a["--prop"], outdir = a["--out"];
    u64 vseed = strtoull(a["--seed"].c_str(), nullptr, 10);
    u32 wi = (u32)atoi(a["--worker"].c_str()), nw = std::max(1, atoi(a["--workers"].c_str()));
    double budget = atof(a["--budget"].c_str()), minb = a.count("--minbudget") ? atof(a["--minbudget"].c_str()) : 60;
    u64 maxruns = a.count("--runs") ? strtoull(a["--runs"].c_str(), nullptr, 10) : ~0ull;
    u64 first = a.count("--first") ? strtoull(a["--first"].c_str(), nullptr, 10) : 0;
    string stop = outdir + "/stop";
    double t0 = wall();
    u64 runs = 0, steps = 0, switches = 0, simns = 0, evals = 0, cut = 0, incs = 0, threads = 0, maxthreads = 0, nontrivial = 0;
    u64 fired[F_N] = {0}, probes[NPROBE] = {0};
    std::set<u64> ilv, dig;
    std::map<int, u64> knownhits;
    vector<string> samples;
    u64 detchecks = 0, detbad = 0;
    string vfile, vtext, vcls;
    auto mkspec = [&](u64 i) {
        Spec s;
        s.property = prop;
        u64 ph = 0;
        for (char c : prop)
            ph = ph * 131 + (u8)c;
        s.seed = mix2(mix2(vseed, ph), i);
        s.warm = mix2(s.seed, 77) & 1;
        return s;
    };
    for (u64 i = first + wi; runs < maxruns && wall() - t0 < budget; i += nw) {
        if (runs % 4 == 0 && access(stop.c_str(), F_OK) == 0)
            break;
        Spec s = mkspec(i);
        Out o = execute(s);
        runs++;
        if (getenv("SIM_VERBOSE"))
            fprintf(stderr, "run %lu seed %lu status %u steps %lu switches %lu inc %u t=%.2f %s %s\n", i, s.seed, o.status, sh->steps, sh->switches, o.incs, wall() - t0, o.vclass.c_str(), o.vmsg.substr(0, 300).c_str());
        steps += sh->steps;
        switches += sh->switches;
        simns += sh->simns;
        evals += sh->evals;
        incs += o.incs;
        threads += sh->nthreads;
        maxthreads = std::max<u64>(maxthreads, sh->nthreads);
        for (int k = 0; k < F_N; k++)
            fired[k] += sh->fired[k];
        for (u32 k = 0; k < NPROBE; k++)
            probes[k] += sh->probe[k];
        ilv.insert(sh->ilv);
        if (sh->evals) {
            nontrivial++;
            dig.insert(o.digest);
        }
        if (sh->sample[0] && (samples.size() < 3 || runs % 50 == 0) && samples.size() < 12)
            samples.push_back(w::fmt("seed %lu: %s", s.seed, sh->sample));
        if (o.status == ST_CUTOFF) {
            cut++;
            continue;
        }
        // repeatability of the simulator itself
        if (o.status == ST_OK && (runs == 1 || runs % 40 == 0)) {
            Spec r = as_replay(s);
            bool over = sh->sched_over || sh->nfault >= MAXFAULT;
            Out p = execute(s);
            detchecks++;
            if (p.digest != o.digest) {
                detbad++;
                fprintf(stderr, "NONDETERMINISM same seed, prop %s run %lu\n", prop.c_str(), i);
            }
            if (!over) {
                Out q = execute(r);
                detchecks++;
                if (q.digest != o.digest) {
                    detbad++;
                    fprintf(stderr, "NONDETERMINISM replay, prop %s run %lu (status %u %s)\n", prop.c_str(), i, q.status, q.vmsg.c_str());
                }
            }
        }
        if (o.status != ST_VIOLATION)
            continue;
        int k = known_index(prop, o);
        if (k >= 0) {
            knownhits[k]++;
            continue;
        }
        if (a.count("--nostop")) {
            fprintf(stderr, "VIOL run %lu seed %lu class %s: %s\n", i, s.seed, o.vclass.c_str(), o.vmsg.c_str());
            continue;
        }
        // a violation: it has to repeat exactly, first from the seed, then from the recorded trace
        u32 nops = (u32)sh->ops;
        bool over = sh->sched_over || sh->nfault >= MAXFAULT;
        Spec r = as_replay(s);
        Out again = execute(s);
        if (again.status != ST_VIOLATION || again.vclass != o.vclass) {
            fprintf(stderr, "violation did not repeat: %s (%s)\n", o.vclass.c_str(), o.vmsg.c_str());
            detbad++;
            continue;
        }
        bool mini = false;
        Spec fin = s;
        Out fo = again;
        if (!over) {
            Out rep = execute(r);
            if (rep.status == ST_VIOLATION && rep.vclass == o.vclass) {
                fin = minimise(r, o.vclass, nops, minb);
                fo = execute(fin);
                mini = fo.status == ST_VIOLATION && fo.vclass == o.vclass;
                if (!mini)
                    fin = r, fo = execute(r);
            }
        }
        if (fo.status != ST_VIOLATION)
            fin = s, fo = execute(s);
        Out fo2 = execute(fin);
        if (fo2.digest != fo.digest)
            fprintf(stderr, "final replay digest differs\n"), detbad++;
        if (access(stop.c_str(), F_OK) == 0 && !a.count("--all"))
            break;
        vfile = a["--replays"] + "/" + prop + "-" + std::to_string(s.seed) + ".json";
        save(vfile, fin, fo, mini);
        vtext = fo.vmsg;
        vcls = fo.vclass;
        std::ofstream(stop) << vfile << "\n";
        break;
    }
    std::ofstream f(outdir + "/w" + std::to_string(wi) + ".json");
    f << "{\"runs\":" << runs << ",\"steps\":" << steps << ",\"switches\":" << switches << ",\"simns\":" << simns << ",\"evals\":" << evals << ",\"cut\":" << cut
      << ",\"incs\":" << incs << ",\"threads\":" << threads << ",\"maxthreads\":" << maxthreads << ",\"nontrivial\":" << nontrivial << ",\"distinct\":" << dig.size()
      << ",\"detchecks\":" << detchecks << ",\"detbad\":" << detbad << ",\"infra\":" << infra << ",\"wall\":" << wall() - t0 << ",\"faults\":{";
    for (int k = 0; k < F_N; k++)
        f << (k ? "," : "") << "\"" << fault_name[k] << "\":" << fired[k];
    f << "},\"probes\":{";
    bool c = false;
    for (u32 k = 0; k < NPROBE; k++)
        if (scen::probe_name(k)) {
            f << (c ? "," : "") << "\"" << scen::probe_name(k) << "\":" << probes[k];
            c = true;
        }
    f << "},\"known\":[";
    c = false;
    for (auto &p : knownhits) {
        f << (c ? "," : "") << "[" << p.first << "," << p.second << "]";
        c = true;
    }
    f << "],\"samples\":[";
    for (size_t i = 0; i < samples.size(); i++)
        f << (i ? "," : "") << jesc(samples[i]);
    f << "],\"ilv\":[";
    c = false;
    for (u64 x : ilv) {
        f << (c ? "," : "") << "\"" << std::hex << x << std::dec << "\"";
        c = true;
    }
    f << "],\"violation\":" << jesc(vtext) << ",\"vclass\":" << jesc(vcls) << ",\"vfile\":" << jesc(vfile) << "}\n";
    return vfile.empty() ? 0 : 1;
}
