#include "kernel.h"
#include "kernel_int.h"

#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <memory>
#include <sys/mman.h>
#include <sys/time.h>
#include <ucontext.h>
#include <getopt.h>
#include <unistd.h>

#ifdef SIM_ASAN
extern "C" {
void __sanitizer_start_switch_fiber(void **fake_stack_save, const void *bottom, size_t size);
void __sanitizer_finish_switch_fiber(void *fake_stack_save, const void **bottom_old, size_t *size_old);
}
#endif

extern "C" int gaia_main(int, char **);
extern "C" {
extern char __start_gaia_data[] __attribute__((weak));
extern char __stop_gaia_data[] __attribute__((weak));
extern char __start_gaia_bss[] __attribute__((weak));
extern char __stop_gaia_bss[] __attribute__((weak));
}

namespace sim {

const char *const op_name[NOPS + 1] = {"open", "read", "write", "seek", "close", "alloc", "meta", "stdout", "any"};
const char *const act_name[NACTS] = {"fail", "short", "crash", "torn", "signal"};
const char *const fstat_name[NFSTAT] = {
    "read_EIO", "read_EINTR", "read_other_error", "read_short", "write_ENOSPC", "write_EIO", "write_other_error", "write_short",
    "seek_error", "close_error", "open_error", "alloc_failure", "allocation_too_big", "memory_limit", "meta_error", "stdout_write_error", "kill", "kill_inside_operation", "signal_handled",
    "disk_full", "pipe_never_closed", "pipe_cut_and_pause", "preemption",
    "sigpipe", "standard_stream_closed", "few_descriptors", "file_replaced_meanwhile", "file_changed_meanwhile", "standard_stream_stalled", "signal_while_waiting", "signal_ignored", "clock_jump"};
const char *const edit_name[NEDITS] = {"replace", "remove", "move", "rewrite", "append"};
uint32_t fault_fired[NFSTAT];
bool g_hang_flag = false;
bool g_cpu_hang = false;
int g_cpu_mult = 1;
#ifdef SIM_ASAN
bool g_asan = true;
#else
bool g_asan = false;
#endif

static const size_t STACK = 8u << 20;   // as much as the usual limit gives, and as getrlimit says

std::vector<Inode> inodes;
std::map<std::string, int> dirmap;
std::vector<std::unique_ptr<Proc>> procs;
Proc *cur = nullptr;
static RunRec *R = nullptr;
static const Scenario *SC = nullptr;
static const Hooks *H = nullptr;
static bool verbose = false;
static ucontext_t sched_ctx;
#ifdef SIM_ASAN
static const void *sched_bottom;
static size_t sched_size;
#endif
static bool in_sut = false;
static long disk_free = -1;
static int runnable_others = 0;
static Rng schedrng(1);
static int schedstick = 0;
static const std::vector<std::pair<int, int>> *sched_explicit = nullptr;
static size_t sched_pos = 0;
static int sched_used = 0;
static FILE *real_out, *real_err, *real_in;
static std::string pristine_data, pristine_bss;
static uint64_t budget = 0;
static bool driver_allocs = true;

RunRec &rec() { return *R; }
unsigned user_id = 1000;

// rep movsb: not intercepted by the sanitizer runtime (redzones inside the sections are copied too)
static void rawcopy(void *d, const void *s, size_t n) {
    asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
}
static void save_globals(std::string &d, std::string &b) {
    size_t nd = __start_gaia_data ? __stop_gaia_data - __start_gaia_data : 0;
    size_t nb = __start_gaia_bss ? __stop_gaia_bss - __start_gaia_bss : 0;
    d.resize(nd);
    b.resize(nb);
    if (nd) rawcopy(&d[0], __start_gaia_data, nd);
    if (nb) rawcopy(&b[0], __start_gaia_bss, nb);
}
static void load_globals(const std::string &d, const std::string &b) {
    if (!d.empty()) rawcopy(__start_gaia_data, d.data(), d.size());
    if (!b.empty()) rawcopy(__start_gaia_bss, b.data(), b.size());
}

// ---------------------------------------------------------------- hashing / tracing
static void mix(uint64_t v) {
    uint64_t h = R->hash;
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 32;
    R->hash = h;
}
static uint64_t shash(const char *p, size_t n) {
    uint64_t h = 1469598103934665603ull;
    for (size_t i = 0; i < n; i++) h = (h ^ (unsigned char)p[i]) * 1099511628211ull;
    return h;
}
static void trace(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
static void trace(const char *fmt, ...) {
    if (!verbose) return;
    va_list ap;
    va_start(ap, fmt);
    vfprintf(real_err, fmt, ap);
    va_end(ap);
}

// ---------------------------------------------------------------- switching
static void set_std(Proc *p) {
    stdin = p->in;
    stdout = p->out;
    stderr = p->err;
}
static void restore_std() {
    stdin = real_in;
    stdout = real_out;
    stderr = real_err;
}
static void to_sched() {
    Proc *me = cur;
    me->saved_errno = errno;
    save_globals(me->gdata, me->gbss);
    me->getopt.ind = optind;
    me->getopt.err = opterr;
    me->getopt.opt = optopt;
    me->getopt.arg = optarg;
    in_sut = false;
    restore_std();
#ifdef SIM_ASAN
    void *fake = nullptr;
    __sanitizer_start_switch_fiber(&fake, sched_bottom, sched_size);
#endif
    swapcontext(&me->ctx, &sched_ctx);
#ifdef SIM_ASAN
    __sanitizer_finish_switch_fiber(fake, nullptr, nullptr);
#endif
    // resumed
    errno = me->saved_errno;
}
[[noreturn]] void die(State s) {
    cur->rec->state = s;
    in_sut = false;
    restore_std();
#ifdef SIM_ASAN
    __sanitizer_start_switch_fiber(nullptr, sched_bottom, sched_size);
#endif
    setcontext(&sched_ctx);
    _exit(97);
}
static void resume(Proc *p) {
    cur = p;
    load_globals(p->gdata, p->gbss);
    optind = p->getopt.ind;
    opterr = p->getopt.err;
    optopt = p->getopt.opt;
    optarg = p->getopt.arg;
    set_std(p);
    in_sut = true;
#ifdef SIM_ASAN
    void *fake = nullptr;
    __sanitizer_start_switch_fiber(&fake, p->stack, STACK);
#endif
    swapcontext(&sched_ctx, &p->ctx);
#ifdef SIM_ASAN
    __sanitizer_finish_switch_fiber(fake, nullptr, nullptr);
#endif
    in_sut = false;
    restore_std();
}

static void sut_entry() {
#ifdef SIM_ASAN
    __sanitizer_finish_switch_fiber(nullptr, &sched_bottom, &sched_size);
#endif
    Proc *p = cur;
    optind = 1;
    int rc = p->tables ? tables_main((int)p->cargv.size() - 1, p->cargv.data())
                       : gaia_main((int)p->cargv.size() - 1, p->cargv.data());
    finish_process(rc, true);
}

// ends the calling process: as exit() does
[[noreturn]] void finish_process(int status, bool returned) {
    Proc *p = cur;
    p->rec->returned = returned;
    for (size_t i = p->atexits.size(); i-- > 0;) p->atexits[i]();
    p->rec->leaked_blocks = p->live_blocks;
    long lf = 0;
    for (auto &f : p->files)
        if (!f->std && !f->closed) lf++;
    for (size_t i = 3; i < p->fds.size(); i++)
        if (p->fds[i].open) {
            bool owned = false;
            for (auto &f : p->files)
                if (!f->closed && f->fd == (int)i) owned = true;
            if (!owned) lf++;
        }
    p->rec->leaked_files = lf;
    // as _IO_cleanup: most recently opened stream first, standard output last
    for (size_t i = p->files.size(); i-- > 0;)
        if (!p->files[i]->closed && p->files[i]->wr) fflush(p->files[i]->f);
    for (auto &f : p->files) f->dead = true;
    for (auto &fd : p->fds) fd.open = false;
    p->rec->status = status & 0xff;
    trace("  [%d] exit %d\n", p->id, status & 0xff);
    mix(0xE0 + (status & 0xff));
    die(S_EXITED);
}

static void exit_hook(int status, void *) {
    if (!in_sut) return;
    on_exit(exit_hook, nullptr);
    finish_process(status, true);
}

static void sig_handler(int s, siginfo_t *, void *) {
    if (!in_sut) {
        static const char m[] = "simulator: signal outside the system under test\n";
        if (write(2, m, sizeof m - 1) < 0) {}
        _exit(98);
    }
    if (s == SIGVTALRM) {
        g_hang_flag = g_cpu_hang = true;
        mix(0xBAD0);
        die(S_HUNG);
    }
    cur->rec->signo = s;
    mix(0xDEAD00 + s);
    die(S_SIGNALLED);
}

// ---------------------------------------------------------------- events
static void yield_point() {
    if (runnable_others <= 0) return;
    to_sched();
}

static void apply_edits(uint32_t a);
static void asked(int signo);
Dec event(Op op, const char *name, const std::string &arg) {
    Proc *p = cur;
    if (p->in_driver_mute) return Dec();
    if (op != OP_ALLOC) yield_point();
    Dec d;
    uint32_t n = p->rec->counts[op]++;
    uint32_t a = p->rec->counts[OP_ANY]++;
    if (!SC->edits.empty()) apply_edits(a);
    p->rec->events++;
    R->events++;
    sched_used++;
    p->simlat = p->simlat * 6364136223846793005ull + 1442695040888963407ull;
    R->simtime_us += 1 + ((p->simlat >> 40) % (op == OP_ALLOC ? 2 : 400));
    if (p->rec->events > budget) {
        g_hang_flag = true;
        trace("  [%d] event budget exhausted\n", p->id);
        mix(0xBAD1);
        die(S_HUNG);
    }
    if (op == OP_ALLOC && p->tables && !driver_allocs) return d;
    if (p->alarm_us && R->simtime_us >= p->alarm_us) {
        p->alarm_us = 0;
        deliver(14, true);
    }
    for (const Fault &f : SC->faults) {
        if (f.inst != p->id) continue;
        if (f.op != op && f.op != OP_ANY) continue;
        uint32_t k = f.op == OP_ANY ? a : n;
        if (!(k == f.nth || (f.persist && k > f.nth))) continue;
        if (f.act == A_CRASH) {
            fault_fired[F_CRASH]++;
            trace("  [%d] *** killed before %s %s\n", p->id, name, arg.c_str());
            mix(0xC0);
            die(S_KILLED);
        } else if (f.act == A_SIGNAL) {
            if (f.persist) continue;
            int signo = f.arg < 1 || f.arg > 64 ? 15 : f.arg;
            asked(signo);
            deliver(signo);
        } else if (f.act == A_TORN) {
            d.torn = true;
            d.tornn = f.arg;
        } else if (f.act == A_SHORT) {
            d.shortn = f.arg < 1 ? 1 : f.arg;
        } else {
            d.err = f.arg;
        }
    }
    return d;
}

// a signal from outside: runs the handler the program installed, or does what the system does
void deliver(int signo, bool own) {
    Proc *p = cur;
    void (*h)(int) = p->handlers[signo];
    trace("  [%d] *** signal %d\n", p->id, signo);
    mix(0x516000 + signo);
    if (signo != 9 && p->sigmask >> (signo - 1) & 1) {
        p->sigpend |= 1ull << (signo - 1);
        return;
    }
    if (signo == 9 || h == SIG_DFL || !h) {
        if (signo == 17 || signo == 18 || signo == 23 || signo == 28) return;
        fault_fired[F_CRASH]++;
        if (own) {
            p->rec->signo = signo;
            die(S_SIGNALLED);
        }
        die(S_KILLED);
    }
    if (h == SIG_IGN) fault_fired[F_SIG_IGNORED]++;
    if (h == SIG_IGN) return;
    if (p->in_handler) {
        p->sigpend |= 1ull << (signo - 1);
        return;
    }
    if (p->once[signo]) p->handlers[signo] = SIG_DFL;
    fault_fired[F_SIGNAL]++;
    p->rec->signals++;
    p->in_handler = true;
    siginfo_t si;
    memset(&si, 0, sizeof si);
    si.si_signo = signo;
    ((void (*)(int, siginfo_t *, void *))h)(signo, &si, nullptr);
    p->in_handler = false;
    set_sigmask(p->sigmask);   // others that came meanwhile
}

void set_sigmask(uint64_t m) {
    cur->sigmask = m;
    for (int n = 1; n < 65; n++)
        if (cur->sigpend >> (n - 1) & ~m >> (n - 1) & 1) {
            cur->sigpend &= ~(1ull << (n - 1));
            deliver(n);
        }
}
static void asked(int signo) {
    if (cur->rec->asked) return;
    cur->rec->asked = signo;
    cur->rec->asked_at = cur->rec->events;
}
bool signal_while_waiting(bool poll) {
    Proc *p = cur;
    bool give_up = false;
    for (size_t k = 0; k < SC->faults.size(); k++) {
        const Fault &f = SC->faults[k];
        if (f.act != A_SIGNAL || !f.persist || f.inst != p->id || p->rec->counts[f.op] <= f.nth || !p->sig_sent.insert(k).second) continue;
        int n = f.arg < 1 || f.arg > 64 ? 15 : f.arg;
        uint32_t before = p->rec->signals;
        bool again = p->restart[n] && !poll;
        fault_fired[F_SIG_WAIT]++;
        asked(n);
        deliver(n);
        if (p->rec->signals != before && !again) give_up = true;
    }
    return give_up;
}

void hard_fault(Op op, FaultStat st) {
    cur->rec->hard++;
    cur->rec->hard_by_op[op]++;
    fault_fired[st]++;
}

void done(const Dec &d, Op op, const char *name, const std::string &arg, long res, int err, uint64_t datahash) {
    Proc *p = cur;
    if (p->in_driver_mute) return;
    mix(((uint64_t)p->id << 56) ^ ((uint64_t)op << 48) ^ (uint64_t)res * 31 ^ (uint64_t)err << 20 ^ datahash ^
        shash(arg.data(), arg.size()));
    if (verbose) {
        if (op != OP_ALLOC || err)
            trace("  [%d] %s(%s) = %ld%s%s\n", p->id, name, arg.c_str(), res, err ? " errno " : "", err ? strerror(err) : "");
    }
    if (H->after_event && R->continuous.empty()) {
        std::string v = H->after_event(p->id);
        if (!v.empty()) R->continuous = v;
    }
    if (d.torn) {
        fault_fired[F_TORN]++;
        trace("  [%d] *** killed inside %s\n", p->id, name);
        mix(0xC1);
        die(S_KILLED);
    }
}

// ---------------------------------------------------------------- file system
std::string norm(const char *path) {
    std::string s(path ? path : ""), o;
    for (size_t i = 0; i < s.size(); i++) {
        if (s[i] == '/' && !o.empty() && o.back() == '/') continue;
        o += s[i];
    }
    if (o == "/sim" || o == "/sim/") return ".";
    if (o.compare(0, 5, "/sim/") == 0) o = o.substr(5);   // the working directory
    while (o.size() > 2 && o[0] == '.' && o[1] == '/') o = o.substr(2);
    return o;
}
int new_inode(int kind);
static bool links = false;   // there are symbolic links
std::string canon(const std::string &p, bool last) {
    if (!links && p.find("..") == std::string::npos && p.find("/.") == std::string::npos && (p.empty() || p.back() != '/')) return p;
    std::vector<std::string> todo, done;
    auto push = [&](const std::string &s) {
        size_t e = s.size();
        while (e > 0) {
            size_t b = s.rfind('/', e - 1);
            b = b == std::string::npos ? 0 : b + 1;
            if (b < e) todo.push_back(s.substr(b, e - b));
            e = b > 0 ? b - 1 : 0;
        }
    };
    bool top = !p.empty() && p[0] == '/';
    push(p);
    auto join = [&](const std::string &c) {
        std::string s = top ? "/" : "";
        for (auto &d : done) s += d + "/";
        return s + c;
    };
    int followed = 0;
    while (!todo.empty()) {
        std::string c = todo.back();
        todo.pop_back();
        if (c == ".") continue;
        if (c == "..") {
            if (done.empty()) top = true;   // out of the working directory, /sim
            else done.pop_back();
            continue;
        }
        auto it = dirmap.find(join(c));
        if (it != dirmap.end() && inodes[it->second].kind == K_LINK && (last || !todo.empty())) {
            if (++followed > 40) return "";
            std::string t = norm(inodes[it->second].data.c_str());
            if (t.empty()) return "";
            if (inodes[it->second].data[0] == '/') {
                done.clear();
                top = t[0] == '/';
            }
            push(t);
            continue;
        }
        done.push_back(c);
        if (top && done.size() == 1 && c == "sim") {
            top = false;
            done.clear();
        }
    }
    if (done.empty()) return top ? "/" : ".";
    std::string c = done.back();
    done.pop_back();
    return join(c);
}
static int entry(const std::string &p) {
    auto it = dirmap.find(p);
    return it == dirmap.end() ? -1 : it->second;
}
// the working directory and the root: opened, looked at and locked like any directory
static int top_dirs[2] = {-1, -1};
static int top_dir(const std::string &p) {
    int root = p == "/";
    if (!root && p != "." && p != "./") return -1;
    int &i = top_dirs[root];
    if (i < 0) {
        i = new_inode(K_DIR);
        set_perm(inodes[i], 0755);
    }
    return i;
}
int lookup(const std::string &p) { int t = top_dir(p); return t >= 0 ? t : entry(canon(p, true)); }
int lookup_name(const std::string &p) { int t = top_dir(p); return t >= 0 ? t : entry(canon(p, false)); }
static std::string parent(const std::string &p) {
    size_t k = p.rfind('/');
    return k == std::string::npos ? "." : k == 0 ? "/" : p.substr(0, k);
}
bool parent_ok(const std::string &p) {
    std::string d = parent(p);
    if (d == "." || d == "/") return true;
    int i = lookup(d);
    return i >= 0 && inodes[i].kind == K_DIR;
}
int parent_err(const std::string &p) {
    if (p.empty()) return ELOOP;
    if (!parent_ok(p)) return ENOENT;
    int i = lookup(parent(p));
    return i >= 0 && !inodes[i].w ? EACCES : 0;
}
void set_perm(Inode &n, int perm) {
    n.perm = perm & 07777;
    n.r = perm & 0400;
    n.w = perm & 0200;
}
// each process sees its own clock (skew, jumps between runs); files carry the time of whoever wrote them
// what the wall clock says: processes disagree somewhat, and the clock may be set while one runs
uint64_t now_us(bool read) {
    uint64_t t = 1700000000000000ull + R->simtime_us;
    if (!cur) return t;
    t += (cur->k.seed % 977) * 1000003ull;
    static const int64_t jumps[8] = {-1, -3600, 3600, -86400 * 365, 86400 * 365, 30, -30, 7200};
    if (cur->k.seed / 3 % 4 == 0 && cur->rec->events > cur->k.seed / 12 % 97) {
        t += jumps[cur->k.seed / 1200 % 8] * 1000000;
        if (read) fault_fired[F_CLOCK_JUMP]++;
    }
    return t;
}
int new_inode(int kind) {
    inodes.emplace_back();
    inodes.back().kind = kind;
    inodes.back().mtime_us = now_us();
    return (int)inodes.size() - 1;
}
static void put_file(const FileSpec &f) {
    std::string p = canon(norm(f.path.c_str()), false);
    if (f.kind == K_ABSENT) {
        dirmap.erase(p);
        return;
    }
    if (f.kind == K_HARD) {
        int i = lookup(norm(f.data.c_str()));
        if (i >= 0) dirmap[p] = i;
        return;
    }
    if (f.kind == K_LINK) links = true;
    int i = new_inode(f.kind);
    Inode &n = inodes[i];
    n.data = f.data;
    n.r = f.r;
    n.w = f.w;
    n.perm = (f.kind == K_DIR ? 0755 : 0644) & ~(f.r ? 0 : 0444) & ~(f.w ? 0 : 0222);
    if (f.mode >= 0) set_perm(n, f.mode);
    n.chunks = f.chunks;
    n.stall = f.stall;
    uint64_t h = SC->seed;   // some files are old, and some from a time when the clock was ahead
    for (char c : p) h = (h ^ (unsigned char)c) * 0x100000001b3ull;
    Rng when(h);
    if (when.chance(8)) n.mtime_us += 300ull * 86400 * 1000000;
    else if (when.chance(30)) n.mtime_us -= (1ull + when.below(30 * 86400)) * 1000000;
    dirmap[p] = i;
}
static void apply_edits(uint32_t a) {
    for (size_t k = 0; k < SC->edits.size(); k++) {
        const Edit &e = SC->edits[k];
        if (e.inst != cur->id || e.nth != a) continue;
        EditRec &er = R->edits[k];
        if (er.applied) continue;
        std::string p = norm(e.f.path.c_str());
        int i = lookup(p);
        if (i < 0 && e.mode != E_REPLACE) continue;
        if (i >= 0 && inodes[i].kind != K_REG) continue;
        er.applied = true;
        er.before = i;
        er.tried = cur->src_tried;
        er.opened = i >= 0 && cur->opened.count(i);
        if (i >= 0) er.old_data = inodes[i].data;
        trace("  [%d] *** somebody does: %s %s\n", cur->id, edit_name[e.mode], p.c_str());
        mix(0xED17 + e.mode);
        switch (e.mode) {
        case E_REPLACE:
            put_file(e.f);
            er.placed = lookup(p);
            break;
        case E_REMOVE: dirmap.erase(p); break;
        case E_MOVE:
            dirmap.erase(p);
            dirmap[norm(e.f.data.c_str())] = i;
            break;
        case E_REWRITE: inodes[i].data = e.f.data; break;
        case E_APPEND: inodes[i].data += e.f.data; break;
        }
        fault_fired[e.mode <= E_MOVE ? F_FILE_REPLACED : F_FILE_CHANGED]++;
    }
}
Snap snapshot() {
    Snap s;
    for (auto &e : dirmap) {
        Inode &n = inodes[e.second];
        s[e.first] = FileSnap{n.kind, n.data, e.second, n.perm, n.mtime_us};
    }
    return s;
}
const std::string *file_data(const std::string &path) {
    int i = lookup(norm(path.c_str()));
    return i < 0 ? nullptr : &inodes[i].data;
}
bool file_exists(const std::string &path) { return lookup(norm(path.c_str())) >= 0; }

int alloc_fd() {
    for (size_t i = 0; i < cur->fds.size(); i++)
        if (!cur->fds[i].open) return (int)i;
    if (cur->k.maxfd > 0 && (int)cur->fds.size() >= cur->k.maxfd) {
        hard_fault(OP_OPEN, F_FEW_FDS);
        return -1;
    }
    if (cur->fds.size() >= 1024) return -1;
    cur->fds.emplace_back();
    return (int)cur->fds.size() - 1;
}

int sys_open(const char *path, int flags, int mode) {
    std::string p = norm(path);
    bool wr = (flags & O_ACCMODE) != O_RDONLY;
    bool source = (flags & O_ACCMODE) != O_WRONLY && cur->rec->sources.count(p);
    if (source && cur->rec->src_open_nth < 0) {
        cur->rec->src_open_nth = (int)cur->rec->counts[OP_OPEN];
        cur->rec->allocs_before_src = cur->rec->counts[OP_ALLOC];
    }
    Dec d = event(OP_OPEN, "open", p + (wr ? " w" : " r"));
    if (source) cur->src_tried = true;
    std::string arg = p + (wr ? (flags & O_TRUNC ? " wt" : " w") : " r");
    int err = d.err;
    if (err) hard_fault(OP_OPEN, F_OPEN);
    std::string at = canon(p, true);
    int i = lookup(p), own = lookup_name(p);
    if (!err) {
        if (p.empty()) err = ENOENT;
        else if (at.empty()) err = ELOOP;
        else if (own >= 0 && (flags & O_CREAT) && (flags & O_EXCL)) err = EEXIST;
        else if (own >= 0 && (flags & O_NOFOLLOW) && inodes[own].kind == K_LINK) err = ELOOP;
        else if (i < 0 && !(flags & O_CREAT)) err = ENOENT;
        else if (i < 0) err = parent_err(at);
    }
    if (!err && i >= 0) {
        Inode &n = inodes[i];
        if (n.kind == K_DIR && wr) err = EISDIR;
        else if (wr && !n.w) err = EACCES;
        else if ((flags & O_ACCMODE) != O_WRONLY && !n.r) err = EACCES;
    }
    if (err) {
        done(d, OP_OPEN, "open", arg, -1, err, 0);
        errno = err;
        return -1;
    }
    int fd = alloc_fd();
    if (fd < 0) {
        done(d, OP_OPEN, "open", arg, -1, EMFILE, 0);
        errno = EMFILE;
        return -1;
    }
    if (i < 0) {
        i = new_inode(K_REG);
        set_perm(inodes[i], mode & ~cur->mask);
        dirmap[at] = i;
    } else if ((flags & O_TRUNC) && wr && inodes[i].kind == K_REG) {
        if (disk_free >= 0) disk_free += (long)inodes[i].data.size();
        inodes[i].data.clear();
        inodes[i].mtime_us = now_us();
    }
    Fd &o = cur->fds[fd];
    o.open = true;
    o.inode = i;
    o.off = 0;
    o.flags = flags;
    o.path = p;
    cur->opened.insert(i);
    if (source) cur->rec->src_opened = true;
    done(d, OP_OPEN, "open", arg, fd, 0, 0);
    return fd;
}

// names of an inode and descriptors on it
static bool in_use(int i) {
    for (auto &e : dirmap)
        if (e.second == i) return true;
    for (auto &p : procs)
        for (auto &fd : p->fds)
            if (fd.open && fd.inode == i) return true;
    return false;
}
void disk_give(int i) {   // room of a file nobody has any more
    if (disk_free >= 0 && i >= 0 && inodes[i].kind == K_REG && !in_use(i)) disk_free += (long)inodes[i].data.size();
}
bool disk_resize(int i, long n, bool holes) {
    long grow = n - (long)inodes[i].data.size();
    if (disk_free >= 0 && (grow < 0 || !holes)) {
        if (grow > disk_free) {
            hard_fault(OP_WRITE, F_DISKFULL);
            return false;
        }
        disk_free -= grow;
    }
    inodes[i].data.resize(n, '\0');
    inodes[i].mtime_us = now_us();
    return true;
}
long sim_disk_free() { return disk_free; }

static int chunk(Proc *p, int knob, int n) {
    if (knob == 0) return n;
    if (knob > 0) return n < knob ? n : knob;
    int k = 1 + (int)p->iorng.below((uint32_t)-knob);
    return n < k ? n : k;
}

static Fd *getfd(int fd) {
    if (fd < 0 || fd >= (int)cur->fds.size() || !cur->fds[fd].open) return nullptr;
    return &cur->fds[fd];
}

static std::string fdarg(Fd *o, int fd) {
    return (o && !o->path.empty() ? o->path : "fd" + std::to_string(fd));
}

ssize_t sys_read(int fd, void *buf, size_t n, long at) {
    Fd *o = getfd(fd);
    std::string arg = fdarg(o, fd);
    Dec d = event(OP_READ, "read", arg);
    o = getfd(fd);
    int err = 0;
    if (!o) err = EBADF;
    else if ((o->flags & O_ACCMODE) == O_WRONLY) err = EBADF;
    else if (inodes[o->inode].kind == K_DIR) err = EISDIR;
    if (!err && d.err) {
        err = d.err;
        hard_fault(OP_READ, err == EIO ? F_READ_EIO : err == EINTR ? F_READ_EINTR : F_READ_OTHER);
    } else if (err && o && err == EISDIR) {
        hard_fault(OP_READ, F_READ_OTHER);
    }
    if (err) {
        done(d, OP_READ, "read", arg, -1, err, 0);
        errno = err;
        return -1;
    }
    Inode &in = inodes[o->inode];
    long r = 0;
    if (in.kind == K_PIPE_IN) {
        int rd = n > 0 ? pipe_ready(in, 0, !(o->flags & O_NONBLOCK)) : 1;
        if (rd <= 0) {
            int e = rd < 0 ? EINTR : EAGAIN;
            done(d, OP_READ, "read", arg, -1, e, 0);
            errno = e;
            return -1;
        }
        long have = (long)(in.avail - in.rpos);
        r = (long)n < have ? (long)n : have;
        if (r > 0 && d.shortn > 0 && d.shortn < r) { r = d.shortn; fault_fired[F_READ_SHORT]++; }
        if (r > 0) {
            long c = chunk(cur, cur->k.rchunk, (int)r);
            if (c < r) fault_fired[F_READ_SHORT]++;
            r = c;
        }
        memcpy(buf, in.data.data() + in.rpos, r);
        in.rpos += r;
    } else if (in.kind == K_REG) {
        long off = at >= 0 ? at : o->off;
        long have = off < (long)in.data.size() ? (long)in.data.size() - off : 0;
        r = (long)n < have ? (long)n : have;
        if (r > 0 && d.shortn > 0 && d.shortn < r) { r = d.shortn; fault_fired[F_READ_SHORT]++; }
        if (r > 0) {
            long c = chunk(cur, cur->k.rchunk, (int)r);
            if (c < r) fault_fired[F_READ_SHORT]++;
            r = c;
        }
        memcpy(buf, in.data.data() + off, r);
        if (at < 0) o->off = off + r;
    }
    done(d, OP_READ, "read", arg, r, 0, shash((const char *)buf, r));
    return r;
}

// how long the writer at the other end waits before the next piece
uint64_t p_pause() {
    uint64_t ms = 1 + cur->iorng.below(900);
    switch (cur->iorng.below(40)) {
    case 0: return 1000 * ms * 1000;
    case 1: return 60000 * ms * 1000;
    case 2: case 3: case 4: return 20 * ms * 1000;
    default: return ms * 1000;
    }
}
int pipe_ready(Inode &in, uint64_t wait_us, bool forever, bool poll) {
    if (in.rpos < in.avail) return 1;
    if (in.chunks.empty() && in.avail == 0) in.avail = in.data.size();
    else if (in.nextchunk < in.chunks.size() && in.avail < in.data.size()) {
        if (!in.arrive_us) in.arrive_us = R->simtime_us + p_pause();
        if ((forever || wait_us) && in.arrive_us > R->simtime_us && signal_while_waiting(poll)) return -1;
        if (!forever && in.arrive_us > R->simtime_us + wait_us) {
            R->simtime_us += wait_us;
            return 0;
        }
        if (in.arrive_us > R->simtime_us) R->simtime_us = in.arrive_us;
        in.arrive_us = 0;
        size_t c = (size_t)in.chunks[in.nextchunk++];
        in.avail = in.avail + c > in.data.size() ? in.data.size() : in.avail + c;
        fault_fired[F_PIPE_CUT]++;
        if (cur->alarm_us && R->simtime_us >= cur->alarm_us) {
            cur->alarm_us = 0;
            deliver(14, true);
        }
    } else in.avail = in.data.size();
    if (in.rpos < in.avail) return 1;
    if (!in.stall) return 1;   // end of file
    if ((forever || wait_us) && signal_while_waiting(poll)) return -1;
    if (!forever) {
        R->simtime_us += wait_us;
        return 0;
    }
    fault_fired[F_PIPE_STALL]++;
    if (cur->alarm_us) {
        R->simtime_us = cur->alarm_us;
        cur->alarm_us = 0;
        uint32_t before = cur->rec->signals;
        bool again = cur->restart[14] && !poll;
        deliver(14, true);
        if (cur->rec->signals != before && !again) return -1;
    }
    trace("  [%d] blocks for ever\n", cur->id);
    mix(0xB10C);
    die(S_BLOCKED);
}
static void release_locks(int id) {
    for (auto &n : inodes) {
        if (n.lock_ex == id) n.lock_ex = -1;
        n.lock_sh.erase(id);
    }
}
int lock_inode(int fd, int how, bool wait) {
    if (fd < 0 || fd >= (int)cur->fds.size() || !cur->fds[fd].open) { errno = EBADF; return -1; }
    int ino = cur->fds[fd].inode, id = cur->id;
    for (;;) {
        Dec d = event(OP_META, "lock", cur->fds[fd].path);
        if (d.err) {
            hard_fault(OP_META, F_META);
            done(d, OP_META, "lock", cur->fds[fd].path, -1, d.err, 0);
            errno = d.err;
            return -1;
        }
        Inode &n = inodes[ino];
        bool busy = false;
        if (how) {
            busy = n.lock_ex >= 0 && n.lock_ex != id;
            if (how == 2)
                for (int s : n.lock_sh) busy |= s != id;
        }
        if (!busy) {
            if (n.lock_ex == id) n.lock_ex = -1;
            n.lock_sh.erase(id);
            if (how == 2) n.lock_ex = id;
            else if (how == 1) n.lock_sh.insert(id);
            done(d, OP_META, "lock", cur->fds[fd].path, 0, 0, 0);
            return 0;
        }
        done(d, OP_META, "lock", cur->fds[fd].path, -1, EWOULDBLOCK, 0);
        if (!wait) {
            errno = EWOULDBLOCK;
            return -1;
        }
    }
}
static void write_map(Proc::Map &m) {
    if (!m.shared) return;
    std::string &d = inodes[m.inode].data;
    for (size_t i = 0; i < m.n && m.off + i < d.size(); i++) d[m.off + i] = ((char *)m.p)[i];
}
void unmap_all(Proc *p) {
    for (auto &m : p->maps) {
        write_map(m);
        free(m.p);
    }
    p->maps.clear();
}
void sync_maps(Proc *p) {
    for (auto &m : p->maps) write_map(m);
}

ssize_t sys_write(int fd, const void *buf, size_t n, long at) {
    Fd *o = getfd(fd);
    bool isstd = o && inodes[o->inode].kind == K_SINK;
    Op op = isstd ? OP_STDOUT : OP_WRITE;
    std::string arg = fdarg(o, fd);
    Dec d = event(op, "write", arg);
    o = getfd(fd);
    int err = 0;
    if (!o) err = EBADF;
    else if ((o->flags & O_ACCMODE) == O_RDONLY) err = EBADF;
    else if (inodes[o->inode].kind == K_FULL) { err = ENOSPC; hard_fault(op, F_WRITE_ENOSPC); }
    if (!err && d.err) {
        err = d.err;
        if (err >= 1000) err -= 1000;   // the signal that goes with it is ignored
        else if (isstd && err == EPIPE) {
            hard_fault(op, F_SIGPIPE);
            deliver(13);
        }
        hard_fault(op, isstd ? F_STDOUT : err == ENOSPC ? F_WRITE_ENOSPC : err == EIO ? F_WRITE_EIO : F_WRITE_OTHER);
    }
    if (err) {
        done(d, op, "write", arg, -1, err, 0);
        errno = err;
        return -1;
    }
    long r = (long)n;
    if (isstd && cur->k.stdstall > 0 && r > 0) {
        long room = cur->k.stdstall - 1 - (long)cur->stdbytes;
        if (room <= 0) {
            fault_fired[F_STD_STALL]++;
            if (signal_while_waiting(false)) {
                done(d, op, "write", arg, -1, EINTR, 0);
                errno = EINTR;
                return -1;
            }
            trace("  [%d] nobody reads what it writes: blocks for ever\n", cur->id);
            mix(0xB10D);
            die(S_BLOCKED);
        }
        if (room < r) r = room;
    }
    if (d.torn) r = d.tornn < r ? d.tornn : r;
    else {
        if (r > 1 && d.shortn > 0 && d.shortn < r) { r = d.shortn; fault_fired[F_WRITE_SHORT]++; }
        if (r > 1 && !isstd) {
            long c = chunk(cur, cur->k.wchunk, (int)r);
            if (c < r) fault_fired[F_WRITE_SHORT]++;
            r = c;
        }
    }
    Inode &in = inodes[o->inode];
    switch (in.kind) {
    case K_SINK: {
        std::string &t = fd == 2 ? cur->rec->err : cur->rec->out;
        if (t.size() < 1000000) t.append((const char *)buf, r);
        cur->stdbytes += r;
        break;
    }
    case K_PIPE_OUT: in.data.append((const char *)buf, r); break;
    case K_REG: {
        long off = at >= 0 ? at : (o->flags & O_APPEND) ? (long)in.data.size() : o->off;
        long grow = off + r - (long)in.data.size();
        long hole = off - (long)in.data.size();
        if (hole < 0) hole = 0;
        if (disk_free >= 0 && grow > 0) {
            long need = grow - hole;   // holes take no space
            if (need > disk_free) {
                long cut = need - disk_free;
                if (cut >= r) {
                    hard_fault(OP_WRITE, F_DISKFULL);
                    done(d, op, "write", arg, -1, ENOSPC, 0);
                    errno = ENOSPC;
                    return -1;
                }
                r -= cut;
                fault_fired[F_WRITE_SHORT]++;
                need = disk_free;
            }
            disk_free -= need;
        }
        if (off + r > (1L << 24)) {
            done(d, op, "write", arg, -1, EFBIG, 0);
            errno = EFBIG;
            return -1;
        }
        if ((long)in.data.size() < off + r) in.data.resize(off + r, '\0');
        in.mtime_us = now_us();
        memcpy(&in.data[off], buf, r);
        if (at < 0) o->off = off + r;
        break;
    }
    default: break;
    }
    uint64_t h = shash((const char *)buf, r);
    if (isstd && fd == 1 && H->on_stdout) H->on_stdout(cur->id);
    if (verbose) {
        std::string hx = arg;
        if (o->off >= r && in.kind == K_REG) hx += " @" + std::to_string(o->off - r) + ":";
        for (long i = 0; i < r && i < 12 && in.kind == K_REG; i++) {
            char b[4];
            snprintf(b, sizeof b, " %02x", ((const unsigned char *)buf)[i]);
            hx += b;
        }
        trace("  [%d] write(%s) = %ld\n", cur->id, hx.c_str(), r);
        bool v = verbose;
        verbose = false;
        done(d, op, "write", arg, r, 0, h);
        verbose = v;
        return r;
    }
    done(d, op, "write", arg, r, 0, h);
    return r;
}

long sys_lseek(int fd, long off, int whence) {
    Fd *o = getfd(fd);
    std::string arg = fdarg(o, fd);
    Dec d = event(OP_SEEK, "lseek", arg);
    o = getfd(fd);
    int err = 0;
    long base = 0;
    if (!o) err = EBADF;
    else {
        Inode &in = inodes[o->inode];
        if (in.kind == K_PIPE_IN || in.kind == K_PIPE_OUT || in.kind == K_SINK) err = ESPIPE;
        else base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? o->off : (long)in.data.size();
        if (!err && base + off < 0) err = EINVAL;
    }
    // glibc seeks behind the program's back between reading and writing one stream
    // and loses a failure of that, which no program could report
    if (!err && d.err && (o->flags & O_ACCMODE) != O_RDWR) {
        err = d.err;
        hard_fault(OP_SEEK, F_SEEK);
    } else if (err == ESPIPE) {
        cur->rec->hard_by_op[OP_SEEK]++;
    }
    if (err) {
        done(d, OP_SEEK, "lseek", arg, -1, err, 0);
        errno = err;
        return -1;
    }
    o->off = base + off;
    done(d, OP_SEEK, "lseek", arg + " " + std::to_string(off) + "/" + std::to_string(whence), o->off, 0, 0);
    return o->off;
}

int sys_close(int fd) {
    Fd *o = getfd(fd);
    std::string arg = fdarg(o, fd);
    Dec d = event(OP_CLOSE, "close", arg);
    o = getfd(fd);
    if (!o) {
        if (cur->rec->misuse.empty()) cur->rec->misuse = "close of a descriptor that is not open";
        done(d, OP_CLOSE, "close", arg, -1, EBADF, 0);
        errno = EBADF;
        return -1;
    }
    bool wr = (o->flags & O_ACCMODE) != O_RDONLY;
    o->open = false;
    disk_give(o->inode);
    if (inodes[o->inode].lock_ex == cur->id) inodes[o->inode].lock_ex = -1;
    inodes[o->inode].lock_sh.erase(cur->id);
    if (d.err) {
        hard_fault(OP_CLOSE, F_CLOSE);
        if (!wr) cur->rec->hard_by_op[OP_CLOSE]--;   // a failing close of the source is no data loss
        done(d, OP_CLOSE, "close", arg, -1, d.err, 0);
        errno = d.err;
        return -1;
    }
    done(d, OP_CLOSE, "close", arg, 0, 0, 0);
    return 0;
}

// ---------------------------------------------------------------- allocator
void driver_alloc_faults(bool on) { driver_allocs = on; }
void driver_fail(const std::string &m) {
    if (cur->rec->misuse.empty()) cur->rec->misuse = m;
}
std::string driver_read_file(const std::string &path) {
    const std::string *s = file_data(path);
    return s ? *s : std::string();
}

#ifndef SIM_ASAN
struct Blk {
    uint64_t magic;
    uint32_t size;
    int32_t inst;
    uint32_t room;               // bytes of the whole block
    unsigned char front[12];
};
static const uint64_t LIVE = 0x11f3a110c8edull, DEAD = 0xdeadf4eedull;
static char *arena, *arena_p, *arena_end, *arena_top;
static void set_size(Blk *b, size_t n) {
    b->size = (uint32_t)n;
    memset((char *)(b + 1) + n, 0xB7, 16);
}
static bool overrun(Blk *b) {
    bool bad = false;
    for (unsigned char c : b->front) bad |= c != 0xF5;
    for (int i = 0; i < 16; i++) bad |= ((unsigned char *)(b + 1))[b->size + i] != 0xB7;
    return bad;
}
static void *raw_alloc(size_t n) {
    size_t tot = sizeof(Blk) + n + 16;
    tot = (tot + 15) & ~(size_t)15;
    if (cur->layout == 3) {   // in sizes of which there are few, with room to grow
        size_t q = 64;
        while (q < tot) q += q / 2 & ~(size_t)15;
        tot = q;
    }
    Blk *b;
    auto &fl = cur->freed[cur->layout == 3 ? tot : 0];
    if (!fl.empty()) {
        b = (Blk *)fl.back();
        fl.pop_back();
    } else {
        if (arena_p + tot > arena_end) return nullptr;
        if (cur->layout == 1 || (cur->layout == 2 && cur->placerng.chance(50))) b = (Blk *)(arena_end -= tot);
        else {
            b = (Blk *)arena_p;
            arena_p += tot;
        }
        b->room = (uint32_t)tot;
    }
    b->magic = LIVE;
    b->inst = cur->id;
    memset(b->front, 0xF5, sizeof b->front);
    set_size(b, n);
    return b + 1;
}
static bool in_arena(void *p) { return (char *)p >= arena && (char *)p < arena_top; }
#endif

static void fill(unsigned char *p, size_t n) {
    int m = cur->k.heapfill;
    if (m == 0) memset(p, 0, n);
    else if (m == 1) memset(p, 0xff, n);
    else if (m == 2) memset(p, 0xa5, n);
    else for (size_t i = 0; i < n; i++) p[i] = (unsigned char)(cur->fillrng.next() >> 24);
}

void *mem_alloc(size_t n, bool zero, const char *name, void *inplace) {
    if (!cur) return malloc(n);
    long was = inplace ? (long)mem_size(inplace) : 0;
    Dec d = event(OP_ALLOC, name, "");
    if (d.torn) d.torn = false;
    bool toobig = n > (64u << 20);
    FaultStat why = F_ALLOC;
    if (!d.err && (!cur->tables || driver_allocs)) {
        if (cur->k.memmax > 0 && n > (size_t)cur->k.memmax) d.err = ENOMEM, why = F_MEMMAX;
        else if (cur->k.memlimit > 0 && cur->live_bytes - was + (long)n > cur->k.memlimit) d.err = ENOMEM, why = F_MEMLIMIT;
    }
    if (cur->rec->sizes.size() < 4000) cur->rec->sizes.insert((uint32_t)(toobig ? 64u << 20 : n));
    if (d.err || toobig) {
        if (d.err) hard_fault(OP_ALLOC, why);
        if (cur->rec->src_open_nth < 0) cur->rec->early_allocfail++;
        done(d, OP_ALLOC, name, std::to_string(n), 0, ENOMEM, 0);
        errno = ENOMEM;
        return nullptr;
    }
#ifdef SIM_ASAN
    void *p = malloc(n);
    cur->blocks[p] = n;
#else
    void *p = inplace;
    if (inplace) {
        Blk *b = (Blk *)p - 1;
        if (overrun(b) && cur->rec->misuse.empty()) cur->rec->misuse = "write outside a heap block";
        set_size(b, n);
    } else if (!(p = raw_alloc(n))) {
        errno = ENOMEM;
        return nullptr;
    }
#endif
    if (!inplace) cur->live_blocks++;
    cur->live_bytes += (long)n - was;
    if (cur->live_bytes > cur->rec->peak) cur->rec->peak = cur->live_bytes;
    if (zero) memset(p, 0, n);
    else if (n > (size_t)was) fill((unsigned char *)p + was, n - was);
    done(d, OP_ALLOC, name, std::to_string(n), 1, 0, 0);
    return p;
}

void mem_free(void *p) {
    if (!p) return;
    if (!cur) { free(p); return; }
#ifdef SIM_ASAN
    auto it = cur->blocks.find(p);
    if (it != cur->blocks.end()) {
        cur->live_bytes -= (long)it->second;
        cur->blocks.erase(it);
        cur->live_blocks--;
    }
    free(p);
#else
    if (!in_arena(p)) {
        // libc-allocated (asprintf ...): hand back; a wild pointer would crash here as in reality
        free(p);
        return;
    }
    Blk *b = (Blk *)p - 1;
    if (b->magic == DEAD) {
        if (cur->rec->misuse.empty()) cur->rec->misuse = "double free";
        return;
    }
    if (b->magic != LIVE) {
        if (cur->rec->misuse.empty()) cur->rec->misuse = "free of a pointer that is no block, or heap corruption";
        return;
    }
    if (overrun(b) && cur->rec->misuse.empty()) cur->rec->misuse = "write outside a heap block";
    b->magic = DEAD;
    memset(p, 0xDD, b->size);
    if (cur->layout == 3) cur->freed[b->room].push_back(b);
    cur->live_blocks--;
    cur->live_bytes -= (long)b->size;
#endif
}

bool mem_grows(void *p, size_t n) {   // where it is, to n bytes
#ifdef SIM_ASAN
    return false;
#else
    Blk *b = (Blk *)p - 1;
    return cur->layout == 3 && sizeof(Blk) + n + 16 <= b->room;
#endif
}

size_t mem_size(void *p) {
#ifdef SIM_ASAN
    auto it = cur->blocks.find(p);
    return it == cur->blocks.end() ? (size_t)-1 : it->second;
#else
    if (!in_arena(p)) return (size_t)-1;
    Blk *b = (Blk *)p - 1;
    return b->magic == LIVE ? b->size : (size_t)-1;
#endif
}

// ---------------------------------------------------------------- processes
static ssize_t ck_read(void *c, char *b, size_t n) {
    SimFile *f = (SimFile *)c;
    if (f->dead) return -1;
    if (f->closed) {
        if (cur->rec->misuse.empty()) cur->rec->misuse = "read from a closed file";
        return -1;
    }
    return sys_read(f->fd, b, n, -1);
}
static ssize_t ck_write(void *c, const char *b, size_t n) {
    SimFile *f = (SimFile *)c;
    if (f->dead) return (ssize_t)n;
    if (f->closed) {
        if (cur->rec->misuse.empty()) cur->rec->misuse = "write to a closed file";
        return 0;
    }
    size_t done_ = 0;
    while (done_ < n) {   // as glibc's new_file_write does around write(2)
        ssize_t r = sys_write(f->fd, b + done_, n - done_, -1);
        if (r < 0) break;
        done_ += r;
    }
    return (ssize_t)done_;
}
static int ck_seek(void *c, off64_t *off, int whence) {
    SimFile *f = (SimFile *)c;
    if (f->dead) return -1;
    if (f->closed) {
        if (cur->rec->misuse.empty()) cur->rec->misuse = "seek in a closed file";
        return -1;
    }
    long r = sys_lseek(f->fd, *off, whence);
    if (r < 0) return -1;
    *off = r;
    return 0;
}
static int ck_close(void *) { return 0; }

SimFile *make_file(int fd, const char *mode, bool std_) {
    cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
    std::unique_ptr<SimFile> f(new SimFile());
    f->fd = fd;
    f->std = std_;
    f->wr = strpbrk(mode, "wa+") != nullptr;
    std::string m(mode);
    std::string mm;
    for (char ch : m)
        if (strchr("rwa+b", ch)) mm += ch;
    f->f = fopencookie(f.get(), mm.c_str(), io);
    if (!std_) {
        f->buf.resize(cur->k.bufsize > 0 ? cur->k.bufsize : 1);
        setvbuf(f->f, f->buf.data(), _IOFBF, f->buf.size());
    }
    SimFile *r = f.get();
    cur->files.push_back(std::move(f));
    return r;
}
SimFile *find_file(FILE *fp) {
    for (auto &f : cur->files)
        if (f->f == fp) return f.get();
    return nullptr;
}

int file_close(FILE *fp) {
    SimFile *f = find_file(fp);
    if (!f) {
        if (cur->rec->misuse.empty()) cur->rec->misuse = "fclose of something that is no open file";
        errno = EBADF;
        return EOF;
    }
    if (f->closed) {
        if (cur->rec->misuse.empty()) cur->rec->misuse = "file closed twice";
        errno = EBADF;
        return EOF;
    }
    int st = f->wr ? fflush(f->f) : 0;
    int e1 = errno;
    int st2 = f->mem ? 0 : sys_close(f->fd);
    int e2 = errno;
    if (f->own) mem_free(f->own);
    f->closed = true;
    f->dead = true;                      // unwritten data is dropped, as fclose does
    setvbuf(f->f, nullptr, _IONBF, 0);   // any further use is noticed at once
    clearerr(f->f);
    f->dead = false;
    errno = e2;
    if (st2 < 0) return EOF;
    if (st) {
        errno = e1;
        return EOF;
    }
    return 0;
}

// process ids: unique among those that run together, may be used again later, and may agree in their low digits or bits
static int make_pid(int id, int in_phase, int phase) {
    static const int strides[] = {1, 1, 1, 2, 7, 8, 10, 16, 64, 100, 256, 1000, 1024, 4096, 10000, 32768, 65536, 100000};
    Rng r(SC->seed * 977 + 5);
    int base = 2 + (int)r.below(30000), stride = strides[r.below(sizeof strides / sizeof *strides)];
    bool again = r.chance(25);
    if (again) return base + stride * in_phase;
    return base + stride * id + (phase > 0 && stride == 1 ? phase : 0);
}
static void start_proc(int id, int in_phase, const InstSpec &is, int phase) {
    std::unique_ptr<Proc> up(new Proc());
    Proc *p = up.get();
    procs.push_back(std::move(up));
    p->id = id;
    p->pid = make_pid(id, in_phase, phase);
    p->k = is.k;
    p->args = is.argv;
    p->rec = &R->inst[id];
    p->mask = p->rec->umask = is.k.mask;
    p->rec->phase = phase;
    p->rec->argv = is.argv;
    bool plain = false;   // behind "--"
    for (size_t k = 1; k < is.argv.size(); k++) {
        const std::string &a = is.argv[k];
        if (!plain && a == "--") {
            plain = true;
            continue;
        }
        if (!plain && (a == "-o" || (a.size() > 2 && !std::string("--output").compare(0, a.size(), a)))) {
            k++;
            continue;
        }
        if (plain || a[0] != '-' || a == "-") p->rec->sources.insert(norm(a.c_str()));
    }
    p->iorng = Rng(is.k.seed * 77 + 5);
    p->fillrng = Rng(is.k.seed * 131 + 9);
    p->placerng = Rng(is.k.seed * 53 + 2);
    static const int layouts[8] = {0, 0, 0, 1, 2, 2, 3, 3};
    p->layout = layouts[is.k.seed / 5 % 8];
    p->simlat = is.k.seed * 2654435761u + 12345;
    for (auto &a : p->args) p->cargv.push_back(&a[0]);
    p->cargv.push_back(nullptr);
    p->tables = !is.argv.empty() && is.argv[0] == "@tables";
    p->gdata = pristine_data;
    p->gbss = pristine_bss;
    p->fds.resize(3);
    for (int s : {0, 1, 2, 3})
        if (p->k.sigign >> s & 1) {
            static const int no[] = {SIGINT, SIGQUIT, SIGHUP, SIGTERM};
            p->handlers[no[s]] = SIG_IGN;
        }
    cur = p;
    const char *modes[3] = {"r", "w", "w"};
    for (int i = 0; i < 3; i++) {
        Fd &o = p->fds[i];
        o.open = !(p->k.stdclosed >> i & 1);
        if (!o.open) fault_fired[F_STD_CLOSED]++;
        // standard input: /dev/null, or a terminal or pipe on which nothing ever arrives
        bool idle = i == 0 && p->k.seed / 8 % 4 >= 2;
        o.inode = new_inode(idle ? K_PIPE_IN : i == 0 ? K_NULL : K_SINK);
        if (idle) inodes[o.inode].stall = true;
        o.flags = i == 0 ? O_RDONLY : O_WRONLY;
        o.path = i == 0 ? "<stdin>" : i == 1 ? "<stdout>" : "<stderr>";
        SimFile *f = make_file(i, modes[i], true);
        if (i == 0) p->in = f->f;
        else if (i == 1) p->out = f->f;
        else p->err = f->f;
    }
    p->outbuf.resize(4096);
    setvbuf(p->out, p->outbuf.data(), p->k.stdoutmode == 0 ? _IOFBF : p->k.stdoutmode == 1 ? _IOLBF : _IONBF, 4096);
    setvbuf(p->err, nullptr, _IONBF, 0);
    // fixed addresses, so that a run does not depend on address space randomisation
    char *st = (char *)mmap((void *)(0x300000000000ull + (uint64_t)p->id * 0x10000000ull), STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(st, 4096, PROT_NONE);
    p->stack = st;
    // garbage that uninitialised locals will see
    const size_t G = 24 * 1024;
    unsigned char *g = (unsigned char *)st + STACK - G;
    if (p->k.stackfill == 1) memset(g, 0xff, G);
    else if (p->k.stackfill == 2) memset(g, 0xa5, G);
    else if (p->k.stackfill >= 3) {
        Rng r(p->k.seed * 7919 + 3);
        for (size_t i = 0; i + 8 <= G; i += 8) {
            uint64_t v = r.next();
            memcpy(g + i, &v, 8);
        }
    }
    getcontext(&p->ctx);
    p->ctx.uc_stack.ss_sp = st;
    p->ctx.uc_stack.ss_size = STACK;
    p->ctx.uc_link = nullptr;
    makecontext(&p->ctx, sut_entry, 0);
    p->saved_errno = 0;
}

void run(const Scenario &sc, RunRec &r, const Hooks &h, bool v) {
    R = &r;
    SC = &sc;
    H = &h;
    verbose = v;
    real_out = stdout;
    real_err = stderr;
    real_in = stdin;
    disk_free = sc.disk_free;
    static bool once = false;
    if (!once) save_globals(pristine_data, pristine_bss);
    // nothing of an earlier run in this process (the dry run) remains
    for (auto &p : procs) {
        for (auto &f : p->files) {
            f->dead = true;
            fclose(f->f);
        }
        munmap(p->stack, STACK);
#ifdef SIM_ASAN
        for (auto &b : p->blocks) free(b.first);
#endif
    }
    procs.clear();
    reset_sems();
    inodes.clear();
    dirmap.clear();
    links = false;
    top_dirs[0] = top_dirs[1] = -1;
    sched_used = 0;
    g_hang_flag = false;
    driver_allocs = true;
    static const unsigned uids[] = {1000, 1000, 1000, 1000, 1000, 0, 65534, 1000};
    user_id = uids[Rng(sc.seed * 131 + 7).below(8)];
    r = RunRec();
    r.edits.resize(sc.edits.size());
#ifndef SIM_ASAN
    size_t AR = 256u << 20;
    // fixed address: pointer values are the same in every run
    if (arena) munmap(arena, AR);
    arena = (char *)mmap((void *)0x200000000000ull, AR, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    arena_p = arena;
    arena_end = arena_top = arena + AR;
#endif
    static char alt[64 * 1024];
    stack_t ss = {};
    ss.ss_sp = alt;
    ss.ss_size = sizeof alt;
    sigaltstack(&ss, nullptr);
    struct sigaction sa = {};
    sa.sa_sigaction = sig_handler;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGVTALRM, SIGPIPE, SIGTRAP}) sigaction(s, &sa, nullptr);
    if (!once) on_exit(exit_hook, nullptr);
    once = true;
    struct itimerval it = {};
    // time to be spent, more for large texts (a list of names, searched in order, is slow but allowed)
    size_t bytes = 0;
    for (auto &ph : sc.ph) for (auto &f : ph.puts) bytes += f.data.size() * std::max<size_t>(1, ph.insts.size());
    it.it_value.tv_sec = (g_asan ? 15 : 3) * (1 + (long)std::min<size_t>(bytes / 200000, g_asan ? 4 : 15)) * g_cpu_mult;
    setitimer(ITIMER_VIRTUAL, &it, nullptr);

    size_t total = 0, nin = 0;
    for (auto &ph : sc.ph) total += ph.insts.size();
    r.inst.resize(total);
    inodes.reserve(64);
    r.snaps.push_back(snapshot());
    for (size_t pi = 0; pi < sc.ph.size(); pi++) {
        const Phase &ph = sc.ph[pi];
        static const uint64_t idle[4] = {0, 400000, 5000000, 3600000000ull};
        if (pi) r.simtime_us += idle[Rng(sc.seed * 64 + pi).below(4)];   // time passes between the phases
        cur = nullptr;
        for (auto &f : ph.puts) put_file(f);
        if (ph.disk > -2) disk_free = ph.disk;
        budget = 300000;   // as much as writing the whole address space byte by byte takes
        for (auto &e : dirmap)
            if (inodes[e.second].kind == K_REG || inodes[e.second].kind == K_PIPE_IN) budget += 64 * inodes[e.second].data.size();
        for (auto &e : sc.edits) budget += 64 * e.f.data.size();
        if (g_asan) budget += 100000;
        r.starts.push_back(snapshot());
        size_t first = nin;
        for (auto &is : ph.insts) {
            start_proc((int)nin, (int)(nin - first), is, (int)pi);
            nin++;
        }
        schedrng = Rng(ph.schedseed * 31337 + 17);
        schedstick = ph.schedstick;
        sched_explicit = &ph.sched;
        sched_pos = 0;
        int last = -1, left = 0;
        bool multi = ph.insts.size() > 1;
        if (multi) {
            r.sched.clear();
            r.sched_phase = (int)pi;
        }
        while (true) {
            std::vector<Proc *> ready;
            for (size_t i = first; i < nin; i++)
                if (r.inst[i].state == S_READY) ready.push_back(procs[i].get());
            if (ready.empty()) break;
            runnable_others = (int)ready.size() - 1;
            Proc *p = ready[0];
            if (ready.size() > 1) {
                bool chosen = false;
                if (left > 0) {
                    for (auto q : ready)
                        if (q->id == last) { p = q; chosen = true; }
                    left--;
                }
                while (!chosen && sched_pos < sched_explicit->size()) {
                    auto &e = (*sched_explicit)[sched_pos++];
                    for (auto q : ready)
                        if (q->id == e.first) { p = q; chosen = true; }
                    if (chosen) left = e.second - 1;
                }
                if (!chosen) {
                    left = 0;
                    if (ph.schedseed == 0) {
                        p = ready[0];
                        for (auto q : ready)
                            if (q->id == last) p = q;
                    } else {
                        bool have = false;
                        if (last >= 0 && (int)schedrng.below(100) < schedstick)
                            for (auto q : ready)
                                if (q->id == last) { p = q; have = true; }
                        if (!have) p = ready[schedrng.below((uint32_t)ready.size())];
                    }
                }
            }
            if (multi) {
                if (last >= 0 && last != p->id) {
                    r.switches++;
                    if (r.inst[last].state == S_READY) fault_fired[F_PREEMPT]++;
                }
                if (!r.sched.empty() && r.sched.back().first == p->id) r.sched.back().second++;
                else r.sched.push_back({p->id, 1});
                mix(0x5C00 + p->id);
            }
            last = p->id;
            resume(p);
            if (r.inst[p->id].state != S_READY) {
                release_locks(p->id);
                unmap_all(p);
            }
        }
        r.snaps.push_back(snapshot());
    }
    cur = nullptr;
    it.it_value.tv_sec = 0;
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
    for (auto &e : r.edits) {
        if (e.before >= 0) e.old_final = inodes[e.before].data;
        if (e.placed >= 0) e.placed_final = inodes[e.placed].data;
    }
    // final state is part of the identity of a run
    for (auto &e : r.snaps.back()) mix(shash(e.first.data(), e.first.size()) ^ shash(e.second.data.data(), e.second.data.size()) * 3);
    for (auto &i : r.inst) {
        mix(shash(i.out.data(), i.out.size()));
        mix(shash(i.err.data(), i.err.size()));
        mix((uint64_t)i.state * 1000 + i.status);
    }
}

}  // namespace sim
