// Driver: seeded search over scenarios, determinism gate, minimiser, replay, evidence.
#include "kernel.h"
#include "props.h"
#include "minimise.h"
#include <fstream>
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstring>
#include <fcntl.h>
#include <set>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace sim;
using std::string;
using std::vector;

namespace {

double now() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

// ------------------------------------------------------------------ one run in a fresh child
enum Stage { ST_NONE, ST_MAKE, ST_DRY, ST_RUN, ST_DONE };
struct Slot {
    int stage;
    uint32_t len;
    char scen[32 << 20];
    char verdict[2048];
    uint64_t hash, events, simtime, schedhash;
    uint32_t fired[NFSTAT];
    uint32_t states[8];
    uint32_t ok_exits, failed_exits, insts;
    int nontrivial;
    uint32_t switches;
    int nsched;
    int sched[2 * 4096];
    int sched_phase;
    bool cpu_hang;
};
Slot *new_slot() {
    void *p = mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    return p == MAP_FAILED ? nullptr : (Slot *)p;
}
void put_scen(Slot *s, const Scenario &sc, int stage) {
    string t = serialize(sc);
    if (t.size() > sizeof s->scen) t.resize(sizeof s->scen);
    memcpy(s->scen, t.data(), t.size());
    s->len = (uint32_t)t.size();
    s->stage = stage;
}

void run_in_child(Slot *s, const Scenario &sc, bool verbose) {
    put_scen(s, sc, ST_RUN);
    memset(fault_fired, 0, sizeof fault_fired);
    RunRec r;
    Hooks h = props::hooks(sc);
    run(sc, r, h, verbose);
    string v = r.continuous.empty() ? props::check(sc, r) : "continuous: " + r.continuous;
    snprintf(s->verdict, sizeof s->verdict, "%s", v.c_str());
    s->hash = r.hash;
    s->events = r.events;
    s->simtime = r.simtime_us;
    s->switches = r.switches;
    memcpy(s->fired, fault_fired, sizeof s->fired);
    memset(s->states, 0, sizeof s->states);
    s->ok_exits = s->failed_exits = 0;
    s->insts = (uint32_t)r.inst.size();
    for (auto &i : r.inst) {
        s->states[i.state]++;
        if (i.state == S_EXITED) (i.status ? s->failed_exits : s->ok_exits)++;
    }
    s->nontrivial = props::nontrivial(sc, r);
    s->schedhash = 0;
    s->nsched = 0;
    s->sched_phase = r.sched_phase;
    for (auto &e : r.sched) {
        s->schedhash = (s->schedhash ^ (uint64_t)(e.first * 100003 + e.second)) * 0x9e3779b97f4a7c15ull;
        if (s->nsched < 4096) {
            s->sched[2 * s->nsched] = e.first;
            s->sched[2 * s->nsched + 1] = e.second;
            s->nsched++;
        }
    }
    s->stage = ST_DONE;
}

string memerr(int fd) {
    string t;
    char b[4096];
    lseek(fd, 0, SEEK_SET);
    ssize_t n;
    while ((n = read(fd, b, sizeof b)) > 0 && t.size() < 200000) t.append(b, n);
    size_t k = t.find("SUMMARY: ");
    if (k != string::npos) {
        string l = t.substr(k + 9, t.find('\n', k) - k - 9);
        return l;
    }
    k = t.find("runtime error: ");
    if (k != string::npos) return t.substr(k, t.find('\n', k) - k);
    return "";
}

// runs body in a child; returns false when the simulator itself failed. On a sanitizer report the verdict is filled in.
template <class F> bool in_child_once(Slot *s, F body, int *code) {
    s->cpu_hang = false;
    s->stage = ST_NONE;
    s->verdict[0] = 0;
    s->hash = 0;
    static int errfd = -1;
    static pid_t owner = 0;
    if (owner != getpid()) {
        errfd = memfd_create("stderr", 0);
        owner = getpid();
    }
    if (ftruncate(errfd, 0) < 0) {}
    lseek(errfd, 0, SEEK_SET);
    fflush(stdout);
    fflush(stderr);
    pid_t p = fork();
    if (p == 0) {
        if (g_asan) dup2(errfd, 2);
        body();
        s->cpu_hang = g_cpu_hang;
        _exit(0);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (code) *code = st;
    if (s->stage == ST_DONE && WIFEXITED(st) && WEXITSTATUS(st) == 0) return true;
    if (g_asan && WIFEXITED(st) && WEXITSTATUS(st) == 77 && (s->stage == ST_RUN || s->stage == ST_DRY || s->stage == ST_DONE)) {
        string m = memerr(errfd);
        if (m.empty()) m = "sanitizer report";
        snprintf(s->verdict, sizeof s->verdict, "memory: %s", m.c_str());
        s->nontrivial = 1;
        s->insts = 1;
        s->ok_exits = s->failed_exits = 0;
        memset(s->states, 0, sizeof s->states);
        s->states[S_SIGNALLED] = 1;
        memset(s->fired, 0, sizeof s->fired);
        s->hash = std::hash<string>()(m);
        s->stage = ST_DONE;
        return true;
    }
    return false;
}

// Time spent is not part of a scenario. A run that took too long is given four times as much before it is said not to end, so that
// slow code does not end in one execution and not in the next.
bool patient = true;
template <class F> bool in_child(Slot *s, F body, int *code = nullptr) {
    bool ok = in_child_once(s, body, code);
    if (!s->cpu_hang || !patient) return ok;
    g_cpu_mult = 4;
    ok = in_child_once(s, body, code);
    g_cpu_mult = 1;
    return ok;
}

void make_and_run(Slot *s, const string &prop, uint64_t seed) {
    s->stage = ST_MAKE;
    props::Dry dry = [&](const Scenario &sc, RunRec &r) {
        put_scen(s, sc, ST_DRY);
        run(sc, r, Hooks(), false);
        s->stage = ST_MAKE;
    };
    Scenario sc = props::make(prop, seed, dry);
    run_in_child(s, sc, false);
}

// ------------------------------------------------------------------ batch
struct Shared {
    std::atomic<uint64_t> next, done, viol_min, errors, recheck, mismatch, stop;
    std::atomic<uint64_t> err_at;
};
struct Stats {
    uint64_t runs = 0, nontrivial = 0, events = 0, simtime = 0, insts = 0, ok = 0, failed = 0, switches = 0;
    uint64_t fired[NFSTAT] = {0}, runs_with[NFSTAT] = {0};
    uint64_t states[8] = {0};
};

string json(const string &s) {
    string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c >= 127) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        } else o += (char)c;
    }
    return o + "\"";
}

string readfile(const string &p) {
    string t;
    FILE *f = fopen(p.c_str(), "rb");
    if (!f) return t;
    char b[65536];
    size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0) t.append(b, n);
    fclose(f);
    return t;
}
void writefile(const string &p, const string &t) {
    FILE *f = fopen(p.c_str(), "wb");
    if (!f) return;
    fwrite(t.data(), 1, t.size(), f);
    fclose(f);
}

Slot *main_slot;
mini::Outcome exec_scenario(const Scenario &sc) {
    mini::Outcome o;
    // through the file format: what is minimised is what the replay file says
    Scenario c;
    if (!parse(serialize(sc), c)) return o;
    o.ran = in_child(main_slot, [&] { run_in_child(main_slot, c, false); });
    if (!o.ran) return o;
    o.verdict = main_slot->verdict;
    o.hash = main_slot->hash;
    for (int i = 0; i < main_slot->nsched; i++) o.sched.push_back({main_slot->sched[2 * i], main_slot->sched[2 * i + 1]});
    o.sched_phase = main_slot->sched_phase;
    return o;
}

struct Known { string prop, match, text; };
vector<Known> known_findings(const string &root) {
    // known: property=<id> scenario=<hash of the minimised scenario's essence> <what fails>
    vector<Known> v;
    string t = readfile(root + "/KNOWN_FINDINGS.txt");
    size_t i = 0;
    while (i < t.size()) {
        size_t e = t.find('\n', i);
        if (e == string::npos) e = t.size();
        string l = t.substr(i, e - i);
        i = e + 1;
        if (l.compare(0, 16, "known: property=") != 0) continue;
        Known k;
        size_t sp = l.find(' ', 16);
        k.prop = l.substr(16, sp - 16);
        size_t q = l.find("verdict=\"");
        if (q == string::npos) continue;
        size_t qe = l.find('"', q + 9);
        k.match = l.substr(q + 9, qe - q - 9);
        k.text = qe + 2 < l.size() ? l.substr(qe + 2) : "";
        v.push_back(k);
    }
    return v;
}

int report(const string &root, const string &prop, Scenario sc, const string &first, double deadline, string &path) {
    mini::Outcome o = exec_scenario(sc);
    if (!o.ran || mini::cls(o.verdict) != mini::cls(first)) {
        printf("simulator error: violation does not reproduce from its scenario (seed %llu: %s)\n", (unsigned long long)sc.seed, first.c_str());
        return 2;
    }
    if (main_slot->cpu_hang) patient = false;   // it certainly does not end: no need to wait four times as long any more
    Scenario m = mini::minimise(sc, o, exec_scenario, deadline);
    mini::Outcome a = exec_scenario(m), b = exec_scenario(m);
    if (!a.ran || !b.ran || a.hash != b.hash || a.verdict != b.verdict || mini::cls(a.verdict) != mini::cls(first)) {
        // the unminimised scenario must then do
        m = sc;
        a = exec_scenario(m);
        b = exec_scenario(m);
        if (!a.ran || !b.ran || a.hash != b.hash || a.verdict != b.verdict || a.verdict.empty()) {
            printf("simulator error: replay of seed %llu is not deterministic\n", (unsigned long long)sc.seed);
            return 2;
        }
    }
    path = root + "/replays/" + prop + "-" + std::to_string(sc.seed) + ".replay";
    mkdir((root + "/replays").c_str(), 0777);
    writefile(path, serialize(m));
    printf("%s seed %llu: %s\n", prop.c_str(), (unsigned long long)sc.seed, a.verdict.c_str());
    printf("minimised: %zu phase(s), %zu fault(s), %zu bytes of replay file; reproduced twice with trace hash %016llx\n", m.ph.size(), m.faults.size(), serialize(m).size(),
           (unsigned long long)a.hash);
    printf("replay with: sh tools/replay.sh %s\n", path.c_str());
    return 1;
}

int cmd_check(const string &root, const string &prop, const string &tier, uint64_t seed, int workers, long runs_override, double cap) {
    const props::Info *info = props::info(prop);
    if (!info) {
        printf("unknown property %s\n", prop.c_str());
        return 2;
    }
    double t0 = now();
    uint64_t total = runs_override > 0 ? (uint64_t)runs_override : tier == "thorough" ? (uint64_t)info->thorough : (uint64_t)info->quick;
    uint64_t base = seed * 1000003ull;   // the scenario seeds of this batch: base .. base+total-1
    printf("%s: VERIF_SEED=%llu tier=%s scenario seeds %llu..%llu\n", prop.c_str(), (unsigned long long)seed, tier.c_str(), (unsigned long long)base, (unsigned long long)(base + total - 1));
    fflush(stdout);

    Shared *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    new (sh) Shared();
    sh->viol_min = UINT64_MAX;
    sh->err_at = UINT64_MAX;
    size_t hbytes = total * 2 * sizeof(uint64_t);
    uint64_t *hashes = (uint64_t *)mmap(nullptr, hbytes, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    uint64_t *scheds = hashes + total;
    vector<pid_t> pids;
    size_t ssz = sizeof(Stats) * workers;
    Stats *stats = (Stats *)mmap(nullptr, ssz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    const int VMAX = 64;
    struct Viol { uint64_t idx; char verdict[2048]; uint32_t len; char scen[32 << 20]; };
    Viol *viols = (Viol *)mmap(nullptr, sizeof(Viol) * workers, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    (void)VMAX;
    struct Sample { int used; char text[6000]; };
    Sample *samples = (Sample *)mmap(nullptr, sizeof(Sample) * workers, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);

    for (int w = 0; w < workers; w++) {
        fflush(stdout);
        pid_t p = fork();
        if (p) {
            pids.push_back(p);
            continue;
        }
        Slot *s = new_slot();
        Stats &st = stats[w];
        viols[w].idx = UINT64_MAX;
        while (true) {
            uint64_t i = sh->next.fetch_add(1);
            if (i >= total || i > sh->viol_min.load() || sh->stop.load()) break;
            if (now() - t0 > cap) {
                sh->stop = 1;
                break;
            }
            int code = 0;
            if (!in_child(s, [&] { make_and_run(s, prop, base + i); }, &code)) {
                sh->errors++;
                if (i < sh->err_at.load()) sh->err_at = i;
                continue;
            }
            st.runs++;
            st.events += s->events;
            st.simtime += s->simtime;
            st.insts += s->insts;
            st.ok += s->ok_exits;
            st.failed += s->failed_exits;
            st.switches += s->switches;
            for (int k = 0; k < NFSTAT; k++) {
                st.fired[k] += s->fired[k];
                st.runs_with[k] += s->fired[k] > 0;
            }
            for (int k = 0; k < 8; k++) st.states[k] += s->states[k];
            if (s->nontrivial) {
                st.nontrivial++;
                hashes[i] = s->hash | 1;
                if (!samples[w].used && s->len < 3000 && i >= (uint64_t)w) {
                    samples[w].used = 1;
                    snprintf(samples[w].text, sizeof samples[w].text, "%.*s", (int)s->len, s->scen);
                }
            }
            scheds[i] = s->schedhash;
            if (s->verdict[0]) {
                uint64_t cur = sh->viol_min.load();
                while (i < cur && !sh->viol_min.compare_exchange_weak(cur, i)) {}
                if (i < viols[w].idx) {
                    viols[w].idx = i;
                    snprintf(viols[w].verdict, sizeof viols[w].verdict, "%s", s->verdict);
                    viols[w].len = std::min<uint32_t>(s->len, sizeof viols[w].scen);
                    memcpy(viols[w].scen, s->scen, viols[w].len);
                }
            } else if (i % 40 == 7) {   // the same seed a second time
                uint64_t h = s->hash;
                sh->recheck++;
                if (!in_child(s, [&] { make_and_run(s, prop, base + i); }) || s->hash != h) {
                    sh->mismatch++;
                    printf("note: seed %llu gave two different traces\n", (unsigned long long)(base + i));
                    fflush(stdout);
                }
            }
        }
        _exit(0);
    }
    for (pid_t p : pids) waitpid(p, nullptr, 0);
    double trun = now() - t0;

    Stats S;
    for (int w = 0; w < workers; w++) {
        Stats &x = stats[w];
        S.runs += x.runs; S.nontrivial += x.nontrivial; S.events += x.events; S.simtime += x.simtime; S.insts += x.insts;
        S.ok += x.ok; S.failed += x.failed; S.switches += x.switches;
        for (int k = 0; k < NFSTAT; k++) S.fired[k] += x.fired[k], S.runs_with[k] += x.runs_with[k];
        for (int k = 0; k < 8; k++) S.states[k] += x.states[k];
    }
    std::set<uint64_t> dist, dsch;
    for (uint64_t i = 0; i < total; i++) {
        if (hashes[i]) dist.insert(hashes[i]);
        if (scheds[i]) dsch.insert(scheds[i]);
    }
    int rc = 0;
    string path, verdict;
    Viol *best = nullptr;
    for (int w = 0; w < workers; w++)
        if (viols[w].verdict[0] && (!best || viols[w].idx < best->idx)) best = &viols[w];
    string known_line;
    for (auto &k : known_findings(root))
        if (k.prop == prop) known_line += "KNOWN-FINDING: property=" + prop + " " + k.text + "\n";
    // the earliest violation that replays exactly is the one reported
    vector<Viol *> cand;
    for (int w = 0; w < workers; w++)
        if (viols[w].verdict[0]) cand.push_back(&viols[w]);
    std::sort(cand.begin(), cand.end(), [](Viol *a, Viol *b) { return a->idx < b->idx; });
    for (Viol *c : cand) {
        Scenario sc;
        parse(string(c->scen, c->len), sc);
        verdict = c->verdict;
        rc = report(root, prop, sc, c->verdict, now() + (tier == "thorough" ? 60 : 20), path);
        if (rc == 1) break;
    }
    if (!best && sh->errors.load() * 2 > S.runs) {
        printf("simulator error: %llu of %llu runs could not be simulated (first: seed %llu)\n", (unsigned long long)sh->errors.load(), (unsigned long long)(S.runs + sh->errors.load()),
               (unsigned long long)(base + sh->err_at.load()));
        rc = 2;
    }

    // ---------------------------------------------------------------- evidence
    string e = "{\n";
    auto num = [&](const char *k, double v, bool last = false) {
        char b[128];
        if (v == (double)(long long)v) snprintf(b, sizeof b, "    \"%s\": %lld%s\n", k, (long long)v, last ? "" : ",");
        else snprintf(b, sizeof b, "    \"%s\": %.3f%s\n", k, v, last ? "" : ",");
        e += b;
    };
    e += "  \"property\": " + json(prop) + ",\n  \"tier\": " + json(tier == "thorough" ? "thorough" : "quick") + ",\n  \"seed\": " + std::to_string(seed) + ",\n  \"level\": \"exploration\",\n";
    e += "  \"coverage\": {\n";
    num("evaluations", (double)S.runs);
    num("distinct_nontrivial", (double)dist.size());
    e += "    \"rule\": " + json(string("one evaluation = one seeded scenario executed by the simulator: ") + info->rule +
                                 ". Non-trivial: at least one injected fault, kill, short transfer, pipe pause or preemption fired, or more than 40 system events happened (C04, C11: more than 12). "
                                 "Distinct: different hash over the complete trace (every event with its result and data, the schedule, outputs, exit states and final file system).") +
         ",\n";
    e += "    \"samples\": [";
    int ns = 0;
    for (int w = 0; w < workers && ns < 3; w++)
        if (samples[w].used) e += string(ns++ ? ",\n      " : "\n      ") + json(samples[w].text);
    e += "\n    ],\n";
    num("runs_per_hour", trun > 0 ? (double)(long long)(S.runs / trun * 3600) : 0);
    num("seeds_per_hour", trun > 0 ? (double)(long long)((S.runs + sh->recheck.load()) / trun * 3600) : 0);
    num("simulated_seconds", S.simtime / 1e6);
    num("simulated_processes", (double)S.insts);
    num("simulated_events", (double)S.events);
    num("context_switches", (double)S.switches);
    num("distinct_interleavings", (double)dsch.size());
    num("nontrivial_runs", (double)S.nontrivial);
    e += "    \"interleaving_measure\": \"distinct run-length-encoded schedules (process, number of events) of phases with several processes; distinct_nontrivial counts distinct complete traces\",\n";
    e += "    \"process_endings\": {\"exit_0\": " + std::to_string(S.ok) + ", \"exit_nonzero\": " + std::to_string(S.failed) + ", \"killed\": " + std::to_string(S.states[S_KILLED]) +
         ", \"signalled\": " + std::to_string(S.states[S_SIGNALLED]) + ", \"blocked_on_open_pipe\": " + std::to_string(S.states[S_BLOCKED]) + ", \"hung\": " + std::to_string(S.states[S_HUNG]) + "},\n";
    e += "    \"faults_fired\": {";
    for (int k = 0; k < NFSTAT; k++) e += string(k ? ", " : "") + "\"" + fstat_name[k] + "\": " + std::to_string(S.fired[k]);
    e += "},\n    \"runs_with_fault\": {";
    for (int k = 0; k < NFSTAT; k++) e += string(k ? ", " : "") + "\"" + fstat_name[k] + "\": " + std::to_string(S.runs_with[k]);
    e += "},\n";
    num("determinism_rechecked_seeds", (double)sh->recheck.load());
    num("determinism_mismatches", (double)sh->mismatch.load());
    num("runs_not_simulated", (double)sh->errors.load());
    num("workers", workers);
    e += "    \"stopped_by_time_cap\": " + string(sh->stop.load() ? "true" : "false") + ",\n";
    e += prop == "C11" ? "    \"real_components\": [\"src/symbol_table.c, src/prime.c, src/forward_reference.c and src/opcode.c of /repo, unmodified, driven through their interfaces; in a quarter of the runs the whole program\"],\n"
                       : "    \"real_components\": [\"every src/*.c of /repo including main(), unmodified\", \"glibc stdio buffering and formatting, argp, ctype, string functions\"],\n";
    e += "    \"stub_components\": [\"system calls open/read/write/lseek/close/unlink/rename/stat (simulated file system and pipes)\", \"heap allocator (arena with guards, or ASan's in C04)\", "
         "\"process life cycle, exit, signals\", \"clock, randomness, environment\"],\n    \"calls_not_simulated\": [";
    {
        char self[4096];
        ssize_t l = readlink("/proc/self/exe", self, sizeof self - 1);
        string dir(self, l > 0 ? l : 0);
        std::ifstream u(dir.substr(0, dir.rfind('/') + 1) + "unsimulated");
        string w;
        bool any = false;
        while (u >> w) {
            e += (any ? ", " : "") + json(w);
            if (!any) printf("note: not simulated:");
            printf(" %s", w.c_str());
            any = true;
        }
        if (any) printf("\n");
    }
    e += "]\n  },\n";
    e += "  \"assumptions\": [\"the reference assembler sim/model.cpp states what a program denotes; programs whose meaning it leaves open are executed but not compared\", "
         "\"a killed process loses its stdio buffers and keeps what write() transferred; power loss is modelled as arbitrary residue in the output only\", "
         "\"search samples scenarios; a quiet run is evidence, not proof\"],\n";
    e += "  \"wall_s\": " + std::to_string(now() - t0) + ",\n  \"violations\": " + std::to_string(rc == 1 ? 1 : 0) + "\n}\n";
    mkdir((root + "/evidence").c_str(), 0777);
    writefile(root + "/evidence/" + prop + ".json", e);

    printf("%s: %llu runs, %zu distinct non-trivial traces, %llu events, %.1f simulated s, %.1f s wall, %llu seeds rechecked (%llu mismatches), %llu not simulated\n", prop.c_str(),
           (unsigned long long)S.runs, dist.size(), (unsigned long long)S.events, S.simtime / 1e6, now() - t0, (unsigned long long)sh->recheck.load(), (unsigned long long)sh->mismatch.load(),
           (unsigned long long)sh->errors.load());
    fputs(known_line.c_str(), stdout);
    if (rc == 1) printf("VIOLATION property=%s replay=%s\n", prop.c_str(), path.c_str());
    return rc;
}

int cmd_replay(const string &file, bool verbose) {
    Scenario sc;
    if (!parse(readfile(file), sc)) {
        printf("not a replay file: %s\n", file.c_str());
        return 2;
    }
    if (!in_child(main_slot, [&] { run_in_child(main_slot, sc, verbose); })) {
        printf("simulator error\n");
        return 2;
    }
    printf("trace hash %016llx\n", (unsigned long long)main_slot->hash);
    if (main_slot->verdict[0]) {
        printf("%s\nVIOLATION property=%s replay=%s\n", main_slot->verdict, sc.prop.c_str(), file.c_str());
        return 1;
    }
    printf("property %s holds in this run\n", sc.prop.c_str());
    return 0;
}

// hashes of a range of seeds, for diffing
int cmd_hashes(const string &prop, uint64_t from, uint64_t n) {
    for (uint64_t i = from; i < from + n; i++) {
        bool ok = in_child(main_slot, [&] { make_and_run(main_slot, prop, i); });
        printf("%s %llu %016llx %016llx %s\n", prop.c_str(), (unsigned long long)i, ok ? (unsigned long long)main_slot->hash : 0ull, ok ? (unsigned long long)main_slot->events : 0ull,
               ok ? main_slot->verdict : "ERROR");
    }
    return 0;
}
int cmd_show(const string &prop, uint64_t seed, bool verbose) {
    bool ok = in_child(main_slot, [&] { make_and_run(main_slot, prop, seed); });
    printf("%.*s%s\n", (int)main_slot->len, main_slot->scen, ok ? main_slot->verdict : "ERROR");
    if (verbose) {
        Scenario sc;
        parse(string(main_slot->scen, main_slot->len), sc);
        in_child(main_slot, [&] { run_in_child(main_slot, sc, true); });
    }
    return 0;
}
// every verdict class met in a range of seeds, with one seed and its count (used while developing)
int cmd_survey(const string &prop, uint64_t from, uint64_t n) {
    std::map<string, std::pair<uint64_t, uint64_t>> m;
    uint64_t err = 0;
    for (uint64_t i = from; i < from + n; i++) {
        if (!in_child(main_slot, [&] { make_and_run(main_slot, prop, i); })) { err++; printf("error at %llu\n", (unsigned long long)i); continue; }
        if (!main_slot->verdict[0]) continue;
        string v = string(main_slot->verdict).substr(0, 60);
        for (auto &c : v)
            if (c >= '0' && c <= '9') c = '#';
        auto &e = m[v];
        if (!e.second) e.first = i;
        e.second++;
    }
    for (auto &e : m) printf("%8llu  first seed %llu  %s\n", (unsigned long long)e.second.second, (unsigned long long)e.second.first, e.first.c_str());
    printf("%llu errors\n", (unsigned long long)err);
    return 0;
}

}  // namespace

int main(int argc, char **argv) {
    int pers = personality(0xffffffff);
    if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC") && personality(pers | ADDR_NO_RANDOMIZE) >= 0) {
        setenv("SIM_REEXEC", "1", 1);
        execv("/proc/self/exe", argv);
    }
    vector<string> a(argv + 1, argv + argc);
    string root = ".";
    if (a.size() >= 2 && a[0] == "--root") {
        root = a[1];
        a.erase(a.begin(), a.begin() + 2);
    }
    for (auto v : {"POSIXLY_CORRECT", "ARGP_HELP_FMT", "COLUMNS", "LINES"}) unsetenv(v);   // read by glibc itself
    main_slot = new_slot();
    if (a.empty()) return 2;
    if (a[0] == "check" && a.size() >= 2) {
        if (a[1] == "C11" && !tables_known) printf("note: the interfaces of the label and reference tables have changed, C11 explores whole runs only\n");
        const char *t = getenv("VERIF_TIER"), *s = getenv("VERIF_SEED"), *w = getenv("SIM_WORKERS"), *n = getenv("SIM_RUNS"), *c = getenv("SIM_CAP");
        string tier = a.size() > 2 ? a[2] : t ? t : "quick";
        double cap = c ? atof(c) : tier == "thorough" ? 700 : 120;
        return cmd_check(root, a[1], tier, s ? strtoull(s, nullptr, 10) : 1, w ? atoi(w) : 8, n ? atol(n) : 0, cap);
    }
    if (a[0] == "replay" && a.size() >= 2) return cmd_replay(a[1], a.size() < 3 || a[2] != "-q");
    if (a[0] == "hashes" && a.size() >= 4) return cmd_hashes(a[1], strtoull(a[2].c_str(), nullptr, 10), strtoull(a[3].c_str(), nullptr, 10));
    if (a[0] == "show" && a.size() >= 3) return cmd_show(a[1], strtoull(a[2].c_str(), nullptr, 10), a.size() > 3);
    if (a[0] == "survey" && a.size() >= 4) return cmd_survey(a[1], strtoull(a[2].c_str(), nullptr, 10), strtoull(a[3].c_str(), nullptr, 10));
    if (a[0] == "asan?") return props::info(a[1]) && props::info(a[1])->asan ? 0 : 1;
    return 2;
}
