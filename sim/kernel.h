// Simulated operating system under which gaia's real main() runs.
#pragma once
#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- PRNG
inline uint64_t splitmix(uint64_t &s) {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next() { return splitmix(s); }
    uint32_t below(uint32_t n) { return n ? (uint32_t)((next() >> 16) % n) : 0; }
    int range(int lo, int hi) { return lo + (int)below((uint32_t)(hi - lo + 1)); }
    bool chance(int pct) { return (int)below(100) < pct; }
    bool permille(int p) { return (int)below(1000) < p; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[below((uint32_t)v.size())]; }
};

// ---------------------------------------------------------------- events and faults
enum Op { OP_OPEN, OP_READ, OP_WRITE, OP_SEEK, OP_CLOSE, OP_ALLOC, OP_META, OP_STDOUT, NOPS, OP_ANY = NOPS };
extern const char *const op_name[NOPS + 1];
enum Act { A_FAIL, A_SHORT, A_CRASH, A_TORN, A_SIGNAL, NACTS };   // A_TORN: perform (part of) the operation, then die
extern const char *const act_name[NACTS];

struct Fault {
    int inst = 0;
    int op = OP_READ;
    uint32_t nth = 0;      // the nth event of that kind of that instance (0-based)
    int act = A_FAIL;
    int arg = 0;           // errno, or number of bytes
    bool persist = false;  // from nth on; A_SIGNAL: when the program next waits for somebody
};

// ---------------------------------------------------------------- scenario (fully explicit: one scenario = one execution)
enum Kind { K_REG, K_DIR, K_NULL, K_FULL, K_PIPE_IN, K_PIPE_OUT, K_SINK, K_ABSENT, K_LINK, K_HARD, NKINDS };   // LINK: symbolic, to the path in data; HARD: another name of the file at data
struct FileSpec {
    std::string path;
    int kind = K_REG;
    std::string data;
    bool r = true, w = true;
    int mode = -1;             // permission bits (>= 0: instead of r and w)
    std::vector<int> chunks;   // pipe: sizes in which the writer delivers data
    bool stall = false;        // pipe: the writer never closes its end
};
// what somebody else does to a file while an instance runs
enum EditMode { E_REPLACE, E_REMOVE, E_MOVE, E_REWRITE, E_APPEND, NEDITS };   // MOVE: to the path in f.data; REWRITE, APPEND: the same file
extern const char *const edit_name[NEDITS];
struct Knobs {
    int rchunk = 0;       // 0: unlimited; n>0: at most n bytes per read; n<0: seeded sizes in 1..-n
    int wchunk = 0;
    int bufsize = 4096;   // stdio buffer of files
    int stdoutmode = 0;   // 0: fully buffered (file/pipe), 1: line buffered (terminal), 2: unbuffered
    int heapfill = 0;     // 0 zero, 1 0xff, 2 0xa5, >=3 seeded bytes
    int stackfill = 0;
    int memmax = 0;       // >0: a single allocation of more bytes fails
    int memlimit = 0;     // >0: allocations fail while more bytes would be in use
    int stdclosed = 0;    // bit n: descriptor n is closed when the program starts
    int maxfd = 0;        // >0: so many descriptors at most
    int stdstall = 0;     // n>0: whoever reads standard output and error takes n-1 bytes and then no more, without going away
    int sigign = 0;       // signals ignored when the program starts: 1 SIGINT, 2 SIGQUIT, 4 SIGHUP, 8 SIGTERM
    int mask = 022;       // umask
    uint64_t seed = 1;
};
struct InstSpec {
    std::vector<std::string> argv;
    Knobs k;
};
struct Edit {
    int inst = 0;
    uint32_t nth = 0;      // just before this event of that instance
    int mode = E_REPLACE;
    FileSpec f;
};
struct Phase {
    std::vector<FileSpec> puts;       // the user's edits before the phase
    std::vector<InstSpec> insts;      // processes started together
    uint64_t schedseed = 0;           // which process runs next
    int schedstick = 0;               // percent chance to stay on the same process
    long disk = -2;                   // room on the disk from now on; -1 unlimited, -2 as before
    std::vector<std::pair<int, int>> sched;  // explicit (instance, events) prefix; then schedseed unless schedseed==0
};
struct Scenario {
    std::string prop;
    uint64_t seed = 0;
    int variant = 0;
    long disk_free = -1;              // bytes; -1: unlimited
    std::vector<Phase> ph;
    std::vector<Fault> faults;
    std::vector<Edit> edits;
};
std::string serialize(const Scenario &);
bool parse(const std::string &, Scenario &);

// ---------------------------------------------------------------- run record
enum State { S_READY, S_EXITED, S_KILLED, S_SIGNALLED, S_BLOCKED, S_HUNG };
struct FileSnap { int kind; std::string data; int ino = -1, perm = 0; uint64_t mtime = 0; };
typedef std::map<std::string, FileSnap> Snap;
struct InstRec {
    int phase = 0;
    std::vector<std::string> argv;
    State state = S_READY;
    int status = -1;             // exit status
    int signo = 0;
    std::string out, err;        // bytes visible on stdout / stderr
    uint32_t counts[NOPS + 1] = {0};
    std::set<std::string> sources;    // positional arguments
    int src_open_nth = -1;            // which open call was the first one of the source
    uint32_t allocs_before_src = 0;   // allocation events before that
    uint32_t early_allocfail = 0;     // allocations that failed before that
    std::set<uint32_t> sizes;         // allocation sizes seen
    long peak = 0;                    // most heap bytes in use
    bool src_opened = false;     // some open of the source for reading succeeded
    int umask = 022;             // when the run began
    uint32_t signals = 0;        // signals that met a handler of the program
    int asked = 0;               // the first signal the scenario sent
    uint64_t asked_at = 0;       // the number of events before it
    uint32_t hard = 0;           // hard faults fired in this instance (not short transfers)
    uint32_t hard_by_op[NOPS + 1] = {0};
    long leaked_blocks = 0, leaked_files = 0;
    bool returned = false;       // ended through exit/return of main
    std::string misuse;          // double close, use after close, bad free ...
    bool ack = false;            // success report became visible
    std::string ack_violation;
    uint64_t events = 0;
    long image_span = 0;
};

struct EditRec {
    bool applied = false;
    bool opened = false;         // that instance had opened the file that was there
    bool tried = false;          // that instance had tried to open its source
    int before = -1, placed = -1;         // inodes
    std::string old_data;                 // what was there just before
    std::string old_final, placed_final;  // what became of the old file and of the one put in its place
};
struct RunRec {
    std::vector<EditRec> edits;
    std::vector<InstRec> inst;
    std::vector<Snap> snaps;     // file system at start of phase 0, then after each phase (index phase+1)
    std::vector<Snap> starts;    // file system at the start of each phase, after the edits
    std::string continuous;      // first violation of the continuous invariant
    uint64_t hash = 0;
    uint64_t events = 0;
    uint64_t simtime_us = 0;
    uint32_t switches = 0;
    std::vector<std::pair<int, int>> sched;   // executed schedule of the last multi-instance phase
    int sched_phase = -1;
};

// ---------------------------------------------------------------- fault statistics (fired, not configured)
enum FaultStat {
    F_READ_EIO, F_READ_EINTR, F_READ_OTHER, F_READ_SHORT, F_WRITE_ENOSPC, F_WRITE_EIO, F_WRITE_OTHER, F_WRITE_SHORT,
    F_SEEK, F_CLOSE, F_OPEN, F_ALLOC, F_MEMMAX, F_MEMLIMIT, F_META, F_STDOUT, F_CRASH, F_TORN, F_SIGNAL, F_DISKFULL, F_PIPE_STALL, F_PIPE_CUT, F_PREEMPT,
    F_SIGPIPE, F_STD_CLOSED, F_FEW_FDS, F_FILE_REPLACED, F_FILE_CHANGED, F_STD_STALL, F_SIG_WAIT, F_SIG_IGNORED, F_CLOCK_JUMP,
    NFSTAT
};
extern const char *const fstat_name[NFSTAT];
extern uint32_t fault_fired[NFSTAT];

typedef std::function<std::string(int inst)> ContinuousCheck;   // "" = fine

struct Hooks {
    // called after every event; returns a violation text or ""
    ContinuousCheck after_event;
    // called when new bytes became visible on an instance's stdout
    std::function<void(int inst)> on_stdout;
};

// run the scenario to the end in this process (call in a fresh child)
void run(const Scenario &, RunRec &, const Hooks &, bool verbose);

Snap snapshot();
const std::string *file_data(const std::string &path);    // current content of a regular file or pipe sink
bool file_exists(const std::string &path);
RunRec &rec();

extern bool g_asan;
extern bool g_hang_flag;
extern bool g_cpu_hang;   // some run of this process spent more time than it was given
extern int g_cpu_mult;    // times as much is given

// API-level driver (C11) entry, defined in tables.cpp
int tables_main(int argc, char **argv);
extern const bool tables_known;   // false: /repo/src no longer has the interfaces the driver was written for
// lets the driver switch injected allocation failures on and off, and report
void driver_alloc_faults(bool on);
std::string driver_read_file(const std::string &path);
void driver_fail(const std::string &msg);

}  // namespace sim
