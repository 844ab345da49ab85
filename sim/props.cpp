#include "props.h"
#include "gen.h"
#include "model.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstring>
#include <map>
#include <memory>
#include <set>

using namespace sim;
using std::string;
using std::vector;

namespace props {

// ------------------------------------------------------------------ command lines
struct Cmd { bool ok = false; string src, out; };
static Cmd cmd(const vector<string> &argv) {
    Cmd c;
    c.out = "a.out";
    vector<string> pos;
    for (size_t i = 1; i < argv.size(); i++) {
        const string &a = argv[i];
        size_t eq = a.find('=');
        string lname = a.substr(0, eq);
        bool lopt = lname.size() > 2 && string("--output").compare(0, lname.size(), lname) == 0;   // may be shortened
        if (a == "-o" || (lopt && eq == string::npos)) {
            if (i + 1 >= argv.size()) return c;
            c.out = argv[++i];
        } else if (lopt) c.out = a.substr(eq + 1);
        else if (a.compare(0, 2, "-o") == 0) c.out = a.substr(2);
        else if (a == "--") {
            for (i++; i < argv.size(); i++) pos.push_back(argv[i]);
        } else if (a.size() > 1 && a[0] == '-') return c;
        else pos.push_back(a);
    }
    if (pos.size() != 1) return c;
    c.src = pos[0];
    c.ok = true;
    return c;
}
static string nrm(const string &p) {
    string s = p;
    if (s.compare(0, 5, "/sim/") == 0) s = s.substr(5);   // the working directory
    while (s.compare(0, 2, "./") == 0) s = s.substr(2);
    return s;
}
static vector<string> cmdline(Rng &r, const string &src, const string &out) {
    if (src[0] == '-') return r.chance(50) ? vector<string>{"gaia", "-o", out, "--", src} : vector<string>{"gaia", "--output=" + out, "--", src};
    if (out == "a.out" && r.chance(80)) return {"gaia", src};
    switch (r.below(8)) {
    case 6:
        switch (r.below(5)) {   // the last one counts
        case 0: return {"gaia", "-o", "other.bin", src, "-o", out};
        case 1: return {"gaia", "-oa.out", "--out=" + out, src};
        case 2: return {"gaia", "-o", out, "--", src};
        case 3: return {"gaia", "--o", out, src};
        default: return {"gaia", src, "--output=x", "-o" + out, "--"};
        }
    case 0: return {"gaia", src, "-o", out};
    case 1: return {"gaia", "-o" + out, src};
    case 2: return {"gaia", "--output=" + out, src};
    case 3: return {"gaia", src, "--output", out};
    default: return {"gaia", "-o", out, src};
    }
}
static string longname(Rng &r) {
    int n = r.chance(60) ? r.pick(vector<int>{31, 32, 59, 60, 63, 64, 65, 127, 128, 200}) : r.range(20, 235);
    return (r.chance(20) ? "dir/" : "") + string(n, 'n') + (r.chance(50) ? "ew" : "");
}
static string srcname(Rng &r) {
    static const vector<string> v = {"prog.asm", "prog.asm", "p", "dir/prog.asm", "./x.asm", "a b.asm", "SRC.ASM", "long_source_name_of_a_program_with_many_words_in_it.s"};
    if (r.chance(4)) return longname(r) + ".asm";
    if (r.chance(2)) return r.pick(vector<string>{"100%s.asm", "%d%n.asm", "dir/%p.asm"});
    if (r.chance(2)) return r.pick(vector<string>{"/sim/prog.asm", "/sim/dir/prog.asm", "/sim/./p.asm"});
    if (r.chance(3)) return r.pick(vector<string>{"prog.asm ", " prog.asm", "-p.asm", "--p", "\xc3\xbc.asm", "~p.asm", "$p", "p;q.asm", "a=b.asm", "p.asm.", "dir/ p", "dir/-p.asm", "p\tq.asm"});
    return r.pick(v);
}
static string outname(Rng &r) {
    static const vector<string> v = {"a.out", "a.out", "out.bin", "prog.bin", "dir/out.bin", "o", "prog.asm.out", "a.out.old"};
    if (r.chance(4)) return longname(r) + (r.chance(50) ? ".bin" : "");
    if (r.chance(1)) return "%s.out";
    if (r.chance(2)) return r.pick(vector<string>{"/sim/out.bin", "/sim/dir/out.bin", "/sim/a.out"});
    if (r.chance(3)) return r.pick(vector<string>{"out.bin ", " out.bin", "a.out ", "-o", "-x.bin", "o=x", ".out", "\xc3\xbc", "out.", "..o", "o\tp", "dir/o ", "dir/-", "~", "$HOME"});
    return r.pick(v);
}

// ------------------------------------------------------------------ knobs, bystanders, faults
static Knobs plain(Rng &r) {
    Knobs k;
    k.seed = 1 + r.below(1000000);
    return k;
}
static Knobs knobs(Rng &r) {
    Knobs k = plain(r);
    k.rchunk = r.pick(vector<int>{0, 0, 0, 1, 2, 7, 64, 127, 128, -3, -20, -200});
    k.wchunk = r.pick(vector<int>{0, 0, 0, 1, 3, 64, -5, -100});
    k.bufsize = r.pick(vector<int>{4096, 4096, 4096, 4096, 1, 2, 16, 64, 512, 1024, 8192, 65536});
    k.stdoutmode = r.below(3);
    k.heapfill = r.below(4);
    k.stackfill = r.below(4);
    return k;
}
static FileSpec file(const string &path, const string &data, int kind = K_REG) {
    FileSpec f;
    f.path = path;
    f.data = data;
    f.kind = kind;
    return f;
}
static string garbage(Rng &r, size_t n) {
    string s(n, '\0');
    int k = r.below(3);
    for (auto &c : s) c = k == 0 ? (char)r.below(256) : k == 1 ? (char)0xEA : 'Z';
    return s;
}
static void dirs(Phase &p, const string &a, const string &b) {
    for (auto &x : {a, b}) {
        string n = nrm(x);
        size_t k = n.rfind('/');
        if (k == string::npos) continue;
        bool have = false;
        for (auto &f : p.puts) have |= f.path == n.substr(0, k);
        if (!have) p.puts.insert(p.puts.begin(), file(n.substr(0, k), "", K_DIR));
    }
}
static void old_output(Rng &r, Phase &p, const string &out, const string &image) {
    if (r.chance(1) && r.chance(30)) {   // larger than any image
        p.puts.push_back(file(out, garbage(r, 65537 + r.below(100000))));
        return;
    }
    switch (r.below(6)) {
    case 0: p.puts.push_back(file(out, garbage(r, image.size() + r.below(300)))); break;
    case 1: p.puts.push_back(file(out, garbage(r, r.below((uint32_t)image.size() + 2)))); break;
    case 2: p.puts.push_back(file(out, image + garbage(r, 1 + r.below(20)))); break;
    default: break;
    }
}
static void bystanders(Rng &r, Phase &p, const Cmd &c) {
    static const vector<string> names = {"keep.txt", "other.asm", "a.out", "out.bin", "prog.bin", "prog", "prog.o", "prog.lst", "prog.asm~", "prog.asm.bak", "a.out.tmp", "gaia.log", "dir/keep", "prog.sym",
                                         "x.asm", "tmp"};
    bool dir = false;
    for (auto &f : p.puts) dir |= f.path == "dir";
    for (auto &n : names) {
        if (!r.chance(35)) continue;
        if (n == nrm(c.src) || n == nrm(c.out)) continue;
        if (n.compare(0, 4, "dir/") == 0 && !dir) continue;
        FileSpec f = file(n, "content of " + n + garbage(r, r.below(20)));
        p.puts.push_back(f);
    }
}

static int err_for(Rng &r, int op) {
    switch (op) {
    case OP_OPEN: return r.pick(vector<int>{EMFILE, ENFILE, EACCES, ENOMEM, EIO, ENOSPC, EROFS});
    case OP_READ: return r.pick(vector<int>{EIO, EIO, EIO, EINTR, ESTALE});
    case OP_WRITE: return r.pick(vector<int>{ENOSPC, ENOSPC, EIO, EDQUOT, EFBIG, EINTR});
    case OP_SEEK: return r.pick(vector<int>{EIO, ESPIPE, EOVERFLOW});
    case OP_CLOSE: return r.pick(vector<int>{EIO, ENOSPC, EDQUOT});
    case OP_ALLOC: return ENOMEM;
    case OP_META: return r.pick(vector<int>{EIO, EACCES, ENOSPC});
    default: return r.pick(vector<int>{EIO, ENOSPC, EPIPE});
    }
}
// killed between two operations, inside one, or asked to end by a signal the program may handle
static void kill_kind(Rng &r, Fault &f, int crash_pct, uint32_t torn_max) {
    if (r.chance(25)) {
        f.act = A_SIGNAL;
        f.arg = r.pick(vector<int>{SIGTERM, SIGINT, SIGHUP});
        return;
    }
    f.act = r.chance(crash_pct) ? A_CRASH : A_TORN;
    f.arg = (int)r.below(torn_max);
}
// one fault inside what the dry run did
static bool pick_fault(Rng &r, const InstRec &dry, int inst, vector<Fault> &out, const vector<int> &ops, bool killers) {
    vector<int> avail;
    for (int o : ops)
        if (dry.counts[o]) avail.push_back(o);
    Fault f;
    f.inst = inst;
    if (killers && r.chance(40)) {
        f.op = r.chance(70) ? (int)OP_ANY : (avail.empty() ? (int)OP_ANY : r.pick(avail));
        uint32_t n = dry.counts[f.op];
        if (!n) return false;
        f.nth = r.chance(20) ? n - 1 - r.below(n < 6 ? n : 6) : r.below(n);
        kill_kind(r, f, 60, 64);
        out.push_back(f);
        return true;
    }
    if (avail.empty()) return false;
    f.op = r.pick(avail);
    uint32_t n = dry.counts[f.op];
    int k = r.below(10);
    f.nth = k == 0 ? 0 : k == 1 ? n - 1 : k == 2 ? n - 1 - r.below(n < 4 ? n : 4) : r.below(n);
    if ((f.op == OP_READ || f.op == OP_WRITE) && r.chance(20)) {
        f.act = A_SHORT;
        f.arg = r.range(1, 40);
        f.persist = r.chance(50);
    } else {
        f.act = A_FAIL;
        f.arg = err_for(r, f.op);
        f.persist = r.chance(f.op == OP_ALLOC ? 30 : 50);
    }
    out.push_back(f);
    return true;
}
static InstSpec &inst_spec(Scenario &sc, size_t id) {
    for (auto &p : sc.ph) {
        if (id < p.insts.size()) return p.insts[id];
        id -= p.insts.size();
    }
    return sc.ph.back().insts.back();
}
// memory runs short in another way: not a failing call, but a limit that stays
static void memory_limit(Rng &r, Knobs &k, const InstRec &d) {
    if (d.sizes.empty()) return;
    if (r.chance(55)) {
        vector<uint32_t> v(d.sizes.begin(), d.sizes.end());
        size_t n = v.size();
        uint32_t s = r.chance(60) ? v[n - 1 - r.below((uint32_t)(n < 3 ? n : 3))] : r.pick(v);
        k.memmax = s > 1 ? (int)s - 1 : 1;
    } else k.memlimit = 1 + (int)(r.chance(50) ? d.peak - 1 - r.below((uint32_t)(d.peak / 4 + 1)) : r.below((uint32_t)d.peak + 1));
}
static const vector<int> ALLOPS = {OP_OPEN, OP_READ, OP_WRITE, OP_SEEK, OP_CLOSE, OP_ALLOC, OP_META};
static const vector<int> ALLOPS_STD = {OP_OPEN, OP_READ, OP_WRITE, OP_SEEK, OP_CLOSE, OP_ALLOC, OP_META, OP_STDOUT};

// favour one kind of operation per run, so that rare ones (close, open) get their share
static void faults_for(Rng &r, Scenario &sc, const RunRec &dry, size_t inst, int pct, const vector<int> &ops, bool killers) {
    if (inst >= dry.inst.size() || !r.chance(pct)) return;
    if (std::find(ops.begin(), ops.end(), (int)OP_ALLOC) != ops.end() && r.chance(8)) {
        memory_limit(r, inst_spec(sc, inst).k, dry.inst[inst]);
        if (r.chance(70)) return;
    }
    int n = r.chance(75) ? 1 : r.range(2, 3);
    for (int i = 0; i < n; i++) pick_fault(r, dry.inst[inst], (int)inst, sc.faults, ops, killers);
}

// a single run in phase 0; returns the model's view
struct One { string text; model::Result m; };
static One program(Rng &r, int invalid_pct, gen::Style *stp = nullptr) {
    One o;
    gen::Style st = stp ? *stp : gen::style(r);
    if (r.chance(invalid_pct)) o.text = gen::invalid(r, st, o.m);
    else o.text = gen::valid(r, st, o.m);
    return o;
}
static void odd_environment(Rng &r, Phase &p, const string &src, const string &out) {
    // failures that are a state of the file system rather than an injected error
    size_t slash = nrm(out).rfind('/');
    if (slash != string::npos && r.chance(40)) {
        // no such directory
        string d = nrm(out).substr(0, slash);
        if (nrm(src).compare(0, d.size() + 1, d + "/")) {
            for (size_t i = 0; i < p.puts.size(); i++)
                if (nrm(p.puts[i].path) == d || !nrm(p.puts[i].path).compare(0, d.size() + 1, d + "/")) p.puts.erase(p.puts.begin() + i--);
            return;
        }
    }
    for (auto &f : p.puts) {
        if (nrm(f.path) == nrm(src)) {
            switch (r.below(8)) {
            case 0: f.kind = K_ABSENT; return;
            case 1: f.r = false; return;
            case 2: f.kind = K_DIR; f.data.clear(); return;
            }
        }
    }
    for (size_t i = 0; i < p.puts.size(); i++)
        if (nrm(p.puts[i].path) == nrm(out)) p.puts.erase(p.puts.begin() + i--);
    FileSpec f = file(out, "old");
    switch (r.below(5)) {
    case 0: f.kind = K_DIR; f.data.clear(); break;
    case 1: f.w = false; break;
    case 2: f.kind = K_FULL; break;
    case 3: f.kind = K_FULL; break;
    default: f.kind = K_PIPE_OUT; f.data.clear();
    }
    p.puts.push_back(f);
}

// somebody else works on the files of a run while it goes on, also in place
static void meanwhile(Rng &r, Scenario &sc, const InstRec &d, int inst, const string &text) {
    uint32_t n = d.counts[OP_ANY];
    Cmd c = cmd(d.argv);
    if (!n || !c.ok) return;
    int k = r.range(1, 3);
    for (int e = 0; e < k; e++) {
        Edit x;
        x.inst = inst;
        x.nth = r.chance(20) ? r.below(n < 40 ? n : 40) : r.below(n);
        x.mode = r.below(NEDITS);
        x.f.path = r.chance(75) ? c.src : c.out;
        if (x.mode == E_MOVE) x.f.data = "moved" + std::to_string(e);
        else if (x.mode != E_REMOVE)
            x.f.data = r.chance(30) ? text.substr(r.below((uint32_t)text.size() + 1)) : r.chance(30) ? text.substr(0, r.below((uint32_t)text.size() + 1)) : gen::bytes(r).substr(0, 3000);
        sc.edits.push_back(x);
    }
}

static Scenario make_single(const string &prop, Rng &r, const Dry &dry, int invalid_pct, int fault_pct, const vector<int> &ops) {
    Scenario sc;
    sc.prop = prop;
    sc.ph.resize(1);
    Phase &p = sc.ph[0];
    One o = program(r, invalid_pct);
    string src = srcname(r), out = outname(r);
    p.puts.push_back(file(src, o.text));
    dirs(p, src, out);
    old_output(r, p, out, o.m.image);
    InstSpec is;
    is.argv = cmdline(r, src, out);
    is.k = knobs(r);
    p.insts.push_back(is);
    if (r.chance(8)) {
        FileSpec &f = p.puts[0].path == src ? p.puts[0] : p.puts[1];
        for (auto &g : p.puts)
            if (g.path == src) { g.kind = K_PIPE_IN; (void)f; }
    }
    if (r.chance(8)) odd_environment(r, p, src, out);
    else if (r.chance(fault_pct)) {
        RunRec d;
        dry(sc, d);
        if (r.chance(10) && o.m.kind == model::OK) sc.disk_free = r.chance(20) ? 0 : r.below((uint32_t)o.m.image.size() + 2);
        else faults_for(r, sc, d, 0, 100, ops, false);
    }
    return sc;
}

static string exact_counts(const model::Result &m) {
    char b[120];
    snprintf(b, sizeof b, "%ld (0x%04lx) bytes assembled.", m.nbytes, m.nbytes);
    return b;
}
static string show(const string &s, size_t at = 0) {
    string o;
    char b[8];
    size_t lo = at > 4 ? at - 4 : 0;
    for (size_t i = lo; i < s.size() && i < lo + 12; i++) {
        snprintf(b, sizeof b, "%02x ", (unsigned char)s[i]);
        o += b;
    }
    return o;
}
static string diff(const string &got, const string &want) {
    size_t i = 0;
    while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
    char b[160];
    snprintf(b, sizeof b, "%zu bytes instead of %zu, first difference at $%04zx: got ", got.size(), want.size(), i);
    return b + show(got, i) + "want " + show(want, i);
}
static bool ended(const InstRec &i) { return i.state == S_EXITED; }
static const char *statename(State s) {
    switch (s) {
    case S_EXITED: return "exited";
    case S_KILLED: return "killed";
    case S_SIGNALLED: return "died of a signal";
    case S_BLOCKED: return "waits for ever";
    case S_HUNG: return "does not end";
    default: return "not run";
    }
}
static const string SUCCESS = "Assembly successful";

struct View {
    Cmd c;
    bool have_src = false;
    int src_kind = K_ABSENT;
    string text;
    model::Result m;
    bool out_exists = false;
    int out_kind = K_ABSENT;
    string out;       // after the phase
};
static View view(const RunRec &rec, size_t inst) {
    View v;
    const InstRec &i = rec.inst[inst];
    v.c = cmd(i.argv);
    const Snap &st = rec.starts[i.phase];
    const Snap &en = rec.snaps[i.phase + 1];
    auto s = st.find(nrm(v.c.src));
    if (s != st.end()) {
        v.src_kind = s->second.kind;
        v.text = s->second.data;
        v.have_src = s->second.kind == K_REG || s->second.kind == K_PIPE_IN;
    }
    if (v.have_src) v.m = model::assemble(v.text);
    else v.m.kind = model::ERR;
    auto o = en.find(nrm(v.c.out));
    if (o != en.end()) {
        v.out_exists = true;
        v.out_kind = o->second.kind;
        v.out = o->second.data;
    }
    return v;
}
// success => exact image and counts
static string check_success(const View &v, const InstRec &i) {
    if (!ended(i) || i.status != 0 || !v.c.ok) return "";
    if (v.m.kind == model::UNSPEC) return "";
    if (v.m.kind == model::ERR) {
        if (!v.have_src) return "false-success: success although the source could not be read";
        return "false-success: success for a source that is no valid program (line " + std::to_string(v.m.lines.empty() ? 0 : v.m.lines[0]) + ": " + v.m.why + ")";
    }
    if (!v.out_exists) return "wrong-image: success but no output file";
    if (v.out_kind != K_REG && v.out_kind != K_PIPE_OUT) {
        if (v.out_kind == K_FULL && !v.m.image.empty()) return "wrong-image: success although the device is full";
        return "";
    }
    if (v.out != v.m.image) return "wrong-image: success but the output is wrong: " + diff(v.out, v.m.image);
    if (!i.hard_by_op[OP_STDOUT]) {
        if (i.out.find(SUCCESS) == string::npos) return "wrong-report: exit status 0 without the success report";
        if (i.out.find(exact_counts(v.m)) == string::npos) return "wrong-report: the announced byte count is not \"" + exact_counts(v.m) + "\"";
        if (i.out.find("\n" + std::to_string(v.m.nsyms) + " symbols.") == string::npos)
            return "wrong-report: the announced symbol count is not " + std::to_string(v.m.nsyms);
    }
    return "";
}
// The world the run was started in, as the scenario arranged it (not as an earlier run may have left it), does not
// let the source be read or the output be written.
static bool unopenable(const Scenario &sc, const InstRec &i, const Cmd &c) {
    const FileSpec *src = nullptr, *out = nullptr, *dir = nullptr;
    string s = nrm(c.src), o = nrm(c.out);
    if (s == o) return true;
    size_t k = o.rfind('/');
    string d = k == string::npos ? "" : o.substr(0, k);
    for (int p = 0; p <= i.phase && p < (int)sc.ph.size(); p++)
        for (auto &f : sc.ph[p].puts) {
            string n = nrm(f.path);
            if (n == s) src = &f;
            if (n == o) out = &f;
            if (n == d) dir = &f;
        }
    if (!src || (src->kind != K_REG && src->kind != K_PIPE_IN) || !src->r) return true;
    if (out && out->kind != K_ABSENT) return out->kind == K_DIR || out->kind == K_PIPE_IN || !out->w;
    return !d.empty() && (!dir || dir->kind != K_DIR);
}
static bool env_failed(const Scenario &sc, const InstRec &i, const Cmd &c) { return i.hard || i.hard_by_op[OP_SEEK] || unopenable(sc, i, c); }

static string trim(const string &s) {
    size_t a = s.find_first_not_of(" \t\r\n"), b = s.find_last_not_of(" \t\r\n");
    return a == string::npos ? "" : s.substr(a, b - a + 1);
}
// does the output name this file and this line number together?
static bool names(const string &out, const string &src, int line) {
    size_t p = 0;
    string num = std::to_string(line);
    while ((p = out.find(src, p)) != string::npos) {
        size_t e = out.find('\n', p);
        string rest = out.substr(p + src.size(), e == string::npos ? string::npos : e - p - src.size());
        size_t q = 0;
        while ((q = rest.find(num, q)) != string::npos) {
            bool l = q > 0 && (rest[q - 1] < '0' || rest[q - 1] > '9');
            bool rr = q + num.size() >= rest.size() || rest[q + num.size()] < '0' || rest[q + num.size()] > '9';
            if (l && rr) return true;
            q++;
        }
        p++;
    }
    return false;
}

// a source line that is called wrong although it is not
static string blames(const string &out, const View &v) {
    if (!v.have_src || v.m.kind == model::UNSPEC || v.c.src.empty()) return "";
    size_t p = 0;
    while ((p = out.find(v.c.src + ":", p)) != string::npos) {
        size_t q = p += v.c.src.size() + 1;
        long n = 0;
        while (q < out.size() && out[q] >= '0' && out[q] <= '9' && q - p < 9) n = n * 10 + out[q++] - '0';
        if (q == p || q >= out.size() || out[q] != ':') continue;
        if (v.m.kind == model::OK) return "false-blame: line " + std::to_string(n) + " of a valid program is reported: " + out.substr(0, 100);
        bool ok = false;
        for (int l : v.m.lines) ok |= l == n;
        if (!ok) return "false-blame: line " + std::to_string(n) + " is reported, the program is wrong in line " + std::to_string(v.m.lines[0]);
    }
    return "";
}

// ------------------------------------------------------------------ C01
static Scenario make_C01(Rng &r, const Dry &dry) { return make_single("C01", r, dry, 12, 55, ALLOPS); }
static string check_C01(const RunRec &rec) {
    for (size_t i = 0; i < rec.inst.size(); i++) {
        string s = check_success(view(rec, i), rec.inst[i]);
        if (!s.empty()) return s;
    }
    return "";
}

// ------------------------------------------------------------------ C02
static Scenario make_C02(Rng &r, const Dry &dry) {
    Scenario sc = make_single("C02", r, dry, 60, 55, ALLOPS);
    if (r.chance(5)) {
        RunRec d;
        dry(sc, d);
        Fault f;
        f.op = OP_ANY;
        f.nth = r.below(d.inst[0].counts[OP_ANY]);
        f.act = A_SIGNAL;
        f.arg = r.pick(vector<int>{SIGTERM, SIGINT, SIGHUP, SIGPIPE, SIGALRM, SIGUSR1});
        sc.faults.push_back(f);
    }
    return sc;
}
// a run that did not do its work says so, and where the fault is
static string honest(const Scenario &sc, const InstRec &i, const View &v) {
        if (i.state == S_SIGNALLED || i.state == S_HUNG || i.state == S_BLOCKED) return string("no-clean-end: the run ") + statename(i.state);
        if (!ended(i) || v.m.kind == model::UNSPEC) return "";
        bool stored = v.out_kind == K_REG || v.out_kind == K_PIPE_OUT ? v.out == v.m.image : v.out_kind == K_NULL || v.m.image.empty();
        bool produced = v.have_src && v.m.kind == model::OK && v.out_exists && stored;
        bool said = i.out.find(SUCCESS) != string::npos;
        if (!produced && i.status == 0) return "silent-failure: exit status 0 although the program's image was not produced";
        if (!produced && said) return "silent-failure: prints the success report although the program's image was not produced";
        if (i.status == 0) return "";
        if (i.hard_by_op[OP_STDOUT] || i.signals) return "";
        if (said) return "silent-failure: the success report and a failing exit status";
        if (trim(i.out + i.err).empty()) return "no-diagnostic: exit status " + std::to_string(i.status) + " without any diagnostic";
        string b = blames(trim(i.out + i.err), v);
        if (!b.empty()) return b;
        if (v.have_src && v.m.kind == model::ERR && !env_failed(sc, i, v.c) && v.c.ok) {
            string all = i.out + "\n" + i.err;
            bool ok = false, named = false;
            for (size_t k = 0; k < v.m.lines.size(); k++) {
                if (!names(all, v.c.src, v.m.lines[k])) continue;
                named = true;
                if (all.find(trim(v.m.texts[k])) != string::npos) ok = true;
            }
            if (!named)
                return "wrong-line: the diagnostic does not name " + v.c.src + " line " + std::to_string(v.m.lines[0]) + " (" + v.m.why + "): " + trim(i.out).substr(0, 120);
            if (!ok) return "wrong-line: the diagnostic does not quote line " + std::to_string(v.m.lines[0]);
        }
    return "";
}
static string check_C02(const Scenario &sc, const RunRec &rec) {
    for (size_t n = 0; n < rec.inst.size(); n++) {
        string s = honest(sc, rec.inst[n], view(rec, n));
        if (!s.empty()) return s;
    }
    return "";
}

// ------------------------------------------------------------------ C03
static Scenario make_C03(Rng &r) {
    Scenario sc;
    sc.prop = "C03";
    gen::Style st = gen::style(r);
    One o = program(r, 25, &st);
    string src = srcname(r), out = outname(r);
    vector<string> argv = cmdline(r, src, out);
    int n = r.range(2, 3);
    for (int k = 0; k < n; k++) {
        Phase p;
        FileSpec f = file(src, o.text);
        if (k > 0 && r.chance(35)) {
            f.kind = K_PIPE_IN;
            size_t left = o.text.size();
            while (left > 0 && f.chunks.size() < 200 && r.chance(90)) {
                int c = r.range(1, r.pick(vector<int>{1, 5, 60, 500, 4096}));
                f.chunks.push_back(c);
                left = left > (size_t)c ? left - c : 0;
            }
        }
        p.puts.push_back(f);
        if (k == 0) dirs(p, src, out);
        p.puts.push_back(file(out, "", K_ABSENT));
        InstSpec is;
        is.argv = argv;
        is.k = k == 0 ? plain(r) : knobs(r);
        p.insts.push_back(is);
        sc.ph.push_back(p);
    }
    return sc;
}
static string same(const InstRec &a, const View &va, const InstRec &b, const View &vb) {
    if (a.state != b.state) return string("one run ") + statename(a.state) + ", the other " + statename(b.state);
    if (a.status != b.status) return "exit status " + std::to_string(a.status) + " and " + std::to_string(b.status);
    if (a.out != b.out) return "different text on standard output: \"" + a.out.substr(0, 150) + "\" and \"" + b.out.substr(0, 150) + "\"";
    if (a.err != b.err) return "different text on standard error";
    if (va.out_exists != vb.out_exists) return "the output file exists after one run only";
    if (va.out != vb.out) return "different output files: " + diff(vb.out, va.out);
    return "";
}
static string check_C03(const Scenario &sc, const RunRec &rec) {
    if (rec.inst.empty()) return "";
    View v0 = view(rec, 0);
    for (size_t i = 0; i < rec.inst.size(); i++) {
        View v = view(rec, i);
        if (v.text != v0.text || rec.inst[i].argv != rec.inst[0].argv) continue;
        if (i) {
            string d = same(rec.inst[0], v0, rec.inst[i], v);
            if (!d.empty()) return "environment-dependent: the same program gives " + d;
        }
        if (v.m.kind == model::OK && v.have_src && v.c.ok && !unopenable(sc, rec.inst[i], v.c)) {
            const InstRec &x = rec.inst[i];
            if (x.state != S_EXITED || x.status != 0)
                return string("valid-refused: a valid program fails (") + statename(x.state) + ", status " + std::to_string(x.status) + "): " + trim(x.out).substr(0, 100);
            string s = check_success(v, x);
            if (!s.empty()) return s;
        }
    }
    return "";
}

// ------------------------------------------------------------------ C04
static Scenario make_C04(Rng &r, const Dry &dry) {
    Scenario sc;
    sc.prop = "C04";
    sc.ph.resize(1);
    Phase &p = sc.ph[0];
    string t;
    gen::Style st = gen::style(r);
    st.giant = r.below(2000) == 0;
    if (st.huge || st.giant) {
        st.huge = true;
        t = program(r, 20, &st).text;
    } else if (r.chance(20)) t = program(r, 50, &st).text;
    else t = gen::bytes(r);
    string src = srcname(r), out = outname(r);
    p.puts.push_back(file(src, t));
    dirs(p, src, out);
    InstSpec is;
    is.argv = cmdline(r, src, out);
    is.k = knobs(r);
    p.insts.push_back(is);
    if (r.chance(4)) odd_environment(r, p, src, out);
    else if (r.chance(45)) {
        RunRec d;
        dry(sc, d);
        static const vector<int> heavy = {OP_ALLOC, OP_ALLOC, OP_ALLOC, OP_OPEN, OP_READ, OP_WRITE, OP_SEEK, OP_CLOSE, OP_STDOUT, OP_META};
        if (!r.chance(15)) faults_for(r, sc, d, 0, 100, heavy, false);
        else meanwhile(r, sc, d.inst[0], 0, t);
    }
    if (r.chance(4)) p.insts[0].k.stdclosed = r.range(1, 7);
    return sc;
}
static string check_C04(const RunRec &rec) {
    for (auto &i : rec.inst) {
        if (i.state == S_SIGNALLED) return "memory: killed by signal " + std::to_string(i.signo);
        if (!i.misuse.empty()) return "memory: " + i.misuse;
    }
    return "";
}

// ------------------------------------------------------------------ C05
static Scenario make_C05(Rng &r, const Dry &dry) {
    Scenario sc = make_single("C05", r, dry, 45, 70, {OP_ALLOC, OP_ALLOC, OP_ALLOC, OP_ALLOC, OP_OPEN, OP_READ, OP_WRITE, OP_SEEK, OP_CLOSE, OP_STDOUT, OP_META});
    if (r.chance(4)) sc.ph[0].insts[0].argv = r.pick(vector<vector<string>>{{"gaia"}, {"gaia", "a", "b"}, {"gaia", "-z"}, {"gaia", "--help"}, {"gaia", "--version"}, {"gaia", "-o"}});
    else if (r.chance(6)) {
        RunRec d;
        dry(sc, d);
        string t;
        for (auto &f : sc.ph[0].puts)
            if (f.path == cmd(d.inst[0].argv).src) t = f.data;
        meanwhile(r, sc, d.inst[0], 0, t);
    }
    if (r.chance(4)) sc.ph[0].insts[0].k.stdclosed = r.range(1, 7);
    return sc;
}
static string check_C05(const RunRec &rec) {
    for (auto &i : rec.inst) {
        if (!i.misuse.empty()) return "release: " + i.misuse;
        if (!ended(i)) continue;
        if (i.leaked_files) return "leak: " + std::to_string(i.leaked_files) + " file(s) never closed (exit status " + std::to_string(i.status) + ")";
        if (i.leaked_blocks > 0) return "leak: " + std::to_string(i.leaked_blocks) + " memory block(s) never freed (exit status " + std::to_string(i.status) + ")";
        if (i.leaked_blocks < 0) return "release: more blocks freed than allocated";
    }
    return "";
}

// ------------------------------------------------------------------ C06
static string residue(Rng &r, const string &image, const string &text) {
    switch (r.below(8)) {
    case 0: return image.substr(0, r.below((uint32_t)image.size() + 1));
    case 1: return string(image.size(), '\0');
    case 2: return garbage(r, image.size());
    case 3: return image + garbage(r, 1 + r.below(100));
    case 4: return garbage(r, image.size() + 1 + r.below(5000));
    case 5: {
        string s = image;
        for (auto &c : s)
            if (r.chance(20)) c = (char)r.below(256);
        return s;
    }
    case 6: return text.substr(0, 500);
    default: return "";
    }
}
static Scenario make_C06(Rng &r, const Dry &dry) {
    Scenario sc;
    sc.prop = "C06";
    One o = program(r, 0);
    string src = srcname(r), out = outname(r);
    vector<string> argv = cmdline(r, src, out);
    int kills = r.range(1, 3);
    for (int k = 0; k <= kills; k++) {
        Phase p;
        if (k == 0) {
            p.puts.push_back(file(src, o.text));
            dirs(p, src, out);
            old_output(r, p, out, o.m.image);
        } else if (r.chance(40)) {
            FileSpec f = file(out, residue(r, o.m.image, o.text));
            if (r.chance(10)) f.kind = K_ABSENT;
            p.puts.push_back(f);
        }
        InstSpec is;
        is.argv = argv;
        is.k = knobs(r);
        p.insts.push_back(is);
        sc.ph.push_back(p);
    }
    RunRec d;
    dry(sc, d);
    for (int k = 0; k < kills; k++) {
        const InstRec &x = d.inst[k];
        Fault f;
        f.inst = k;
        f.op = r.chance(45) ? (int)OP_WRITE : (int)OP_ANY;
        if (!x.counts[f.op]) f.op = OP_ANY;
        uint32_t n = x.counts[f.op];
        if (!n) continue;
        f.nth = r.chance(25) ? n - 1 - r.below(n < 8 ? n : 8) : r.below(n);
        kill_kind(r, f, 50, r.chance(50) ? 8 : 4096);
        sc.faults.push_back(f);
    }
    return sc;
}
static string check_C06(const Scenario &sc, const RunRec &rec) {
    if (rec.inst.empty()) return "";
    for (size_t n = 0; n < rec.inst.size(); n++) {
        View v = view(rec, n);
        if (!v.have_src || v.m.kind != model::OK || !v.c.ok) return "";
        auto it = rec.snaps[rec.inst[n].phase + 1].find(nrm(v.c.src));
        if (it == rec.snaps[rec.inst[n].phase + 1].end() || it->second.data != v.text) return "source-damaged: the source is not intact after the run was killed";
    }
    size_t n = rec.inst.size() - 1;
    const InstRec &i = rec.inst[n];
    View v = view(rec, n);
    if (i.hard || i.state == S_KILLED || unopenable(sc, i, v.c)) return "";
    if (i.state != S_EXITED || i.status != 0)
        return string("rerun-fails: the rerun after the kill ") + statename(i.state) + " with status " + std::to_string(i.status) + ": " + trim(i.out).substr(0, 100);
    return check_success(v, i);
}

// ------------------------------------------------------------------ C07
static Scenario make_C07(Rng &r, const Dry &dry) {
    Scenario sc;
    sc.prop = "C07";
    sc.ph.resize(1);
    Phase &p = sc.ph[0];
    One o = program(r, 5);
    string src = srcname(r), out = outname(r);
    p.puts.push_back(file(src, o.text));
    dirs(p, src, out);
    old_output(r, p, out, o.m.image);
    InstSpec is;
    is.argv = cmdline(r, src, out);
    is.k = knobs(r);
    if (r.chance(50)) is.k.stdoutmode = r.range(1, 2);
    p.insts.push_back(is);
    if (r.chance(85)) {
        RunRec d;
        dry(sc, d);
        const InstRec &x = d.inst[0];
        if (r.chance(45)) {
            Fault f;   // killed, mostly near the end
            f.op = r.chance(25) && x.counts[OP_STDOUT] ? (int)OP_STDOUT : (int)OP_ANY;
            uint32_t n = x.counts[f.op];
            if (n) {
                f.nth = r.chance(75) ? n - 1 - r.below(n < 40 ? n : 40) : r.below(n);
                kill_kind(r, f, 60, 64);
                sc.faults.push_back(f);
            }
        } else if (r.chance(15)) sc.disk_free = r.chance(20) ? 0 : r.below((uint32_t)o.m.image.size() + 2);
        else faults_for(r, sc, d, 0, 100, {OP_WRITE, OP_WRITE, OP_CLOSE, OP_CLOSE, OP_SEEK, OP_META}, false);
    }
    return sc;
}
static string check_C07(const Scenario &sc, const RunRec &rec) {
    for (size_t n = 0; n < rec.inst.size(); n++) {
        const InstRec &i = rec.inst[n];
        View v = view(rec, n);
        if (v.m.kind == model::UNSPEC || !v.c.ok) continue;
        if (!i.ack_violation.empty()) return "early-report: " + i.ack_violation;
        if (i.out.find(SUCCESS) == string::npos) continue;
        if (v.m.kind == model::OK && v.out_kind == K_REG && v.out != v.m.image) return "early-report: the success report is visible but the output in the end is wrong: " + diff(v.out, v.m.image);
        if (i.hard_by_op[OP_CLOSE]) return "early-report: closing the output failed, yet the success report is visible";
    }
    (void)sc;
    return "";
}

// ------------------------------------------------------------------ C08
static Scenario make_C08(Rng &r, const Dry &dry) {
    Scenario sc;
    sc.prop = "C08";
    int n = r.chance(75) ? 1 : 2;
    for (int k = 0; k < n; k++) {
        Phase p;
        One o = program(r, 35);
        string src = srcname(r), out = outname(r);
        if (nrm(src) == nrm(out)) out = "zz.bin";
        p.puts.push_back(file(src, o.text));
        dirs(p, src, out);
        old_output(r, p, out, o.m.image);
        InstSpec is;
        is.argv = cmdline(r, src, out);
        is.k = knobs(r);
        Cmd c = cmd(is.argv);
        bystanders(r, p, c);
        if (r.chance(50))
            for (auto &f : p.puts)   // files that others may write, or nobody
                if (f.kind == K_REG && f.mode < 0 && f.r && nrm(f.path) != nrm(out) && r.chance(50)) f.mode = r.pick(vector<int>{0664, 0666, 0600, 0400, 0444, 0755, 0777, 0640, 0660});
        if (r.chance(6)) odd_environment(r, p, src, out);
        if (r.chance(5)) is.argv = r.pick(vector<vector<string>>{{"gaia"}, {"gaia", src, out}, {"gaia", "-z", src}, {"gaia", src, "-o"}, {"gaia", "--help"}});
        p.insts.push_back(is);
        sc.ph.push_back(p);
    }
    if (r.chance(60)) {
        RunRec d;
        dry(sc, d);
        for (int k = 0; k < n; k++) faults_for(r, sc, d, k, 80, ALLOPS_STD, true);
    }
    return sc;
}
static string check_C08(const RunRec &rec) {
    for (size_t n = 0; n < rec.inst.size(); n++) {
        const InstRec &i = rec.inst[n];
        Cmd c = cmd(i.argv);
        const Snap &a = rec.starts[i.phase], &b = rec.snaps[i.phase + 1];
        string out = c.ok ? nrm(c.out) : "";
        for (auto &e : a) {
            if (e.first == out) continue;
            auto it = b.find(e.first);
            if (it == b.end()) return "other-file: " + e.first + " is gone";
            if (it->second.kind != e.second.kind || it->second.data != e.second.data) return "other-file: " + e.first + " changed";
            if (it->second.ino != e.second.ino) return "other-file: " + e.first + " is another file than before";
            if (it->second.perm != e.second.perm) return "other-file: " + e.first + " has other permissions than before";
            if (it->second.mtime != e.second.mtime) return "other-file: " + e.first + " has another time of modification than before";
        }
        if (!ended(i) || i.signals) continue;
        for (auto &e : b)
            if (e.first != out && !a.count(e.first)) return "other-file: " + e.first + " was left behind";
    }
    return "";
}

// ------------------------------------------------------------------ C09
static Scenario make_C09(Rng &r, const Dry &dry) {
    Scenario sc;
    sc.prop = "C09";
    sc.ph.resize(1);
    Phase &p = sc.ph[0];
    One o = program(r, 20);
    string src = srcname(r), out = outname(r);
    p.puts.push_back(file(src, o.text));
    dirs(p, src, out);
    if (r.chance(80)) p.puts.push_back(file(out, r.chance(50) ? "previous build" + garbage(r, r.below(100)) : o.m.image));
    InstSpec is;
    is.argv = cmdline(r, src, out);
    is.k = knobs(r);
    p.insts.push_back(is);
    if (r.chance(20)) sc.disk_free = r.below(3) ? 0 : r.below(5000);
    InstSpec &I = p.insts[0];
    FileSpec *s = nullptr;
    for (auto &f : p.puts)
        if (f.path == src) s = &f;
    switch (r.below(9)) {
    case 0:
        I.argv = r.pick(vector<vector<string>>{{"gaia"}, {"gaia", src, "x.asm"}, {"gaia", "-o", out}, {"gaia", "-o", out, src, src}, {"gaia", "-q", src}, {"gaia", "--outputs=" + out, "-z", src}, {"gaia", src, "-o"},
                                               {"gaia", "--help"}, {"gaia", "--version"}, {"gaia", "--usage"}, {"gaia", "-?", src}, {"gaia", src, "-o", out, "--help"}, {"gaia", "-o", out, "-V", src}, {"gaia", "--out", out, src, "--vers"}, {"gaia", "-o", out, src, "extra", "more"}});
        break;
    case 1: s->kind = K_ABSENT; s->data.clear(); break;
    case 2: s->r = false; break;
    case 3: case 4: {
        RunRec d;
        dry(sc, d);
        Fault f;   // opening the source fails
        f.op = OP_OPEN;
        f.nth = d.inst[0].src_open_nth < 0 ? 0 : d.inst[0].src_open_nth;
        f.arg = err_for(r, OP_OPEN);
        f.persist = r.chance(30);
        sc.faults.push_back(f);
        break;
    }
    default: {
        RunRec d;
        dry(sc, d);
        if (r.chance(20)) {
            memory_limit(r, I.k, d.inst[0]);
            break;
        }
        Fault f;
        f.op = OP_ALLOC;
        uint32_t n = d.inst[0].allocs_before_src;
        f.nth = r.below(n ? n : 1);
        f.arg = ENOMEM;
        f.persist = r.chance(40);
        sc.faults.push_back(f);
    }
    }
    if (r.chance(10)) {
        Fault f;
        f.op = OP_META;
        f.nth = 0;
        f.arg = EIO;
        sc.faults.push_back(f);
    }
    return sc;
}
static string check_C09(const RunRec &rec) {
    for (size_t n = 0; n < rec.inst.size(); n++) {
        const InstRec &i = rec.inst[n];
        if (i.state == S_SIGNALLED || i.state == S_HUNG) return string("start-up: the run ") + statename(i.state);
        if (!ended(i)) continue;
        Cmd c = cmd(i.argv);
        bool info = false;
        for (auto &a : i.argv) info |= (a.size() > 2 && (string("--help").compare(0, a.size(), a) == 0 || string("--version").compare(0, a.size(), a) == 0 || string("--usage").compare(0, a.size(), a) == 0)) || a == "-?" || a == "-V";
        bool early_alloc = i.early_allocfail > 0;
        bool failed_start = !c.ok || !i.src_opened || (early_alloc && i.status != 0);
        if (!failed_start) continue;
        if (i.status == 0 && !info) return "start-up: exit status 0 although the run could not start";
        const Snap &a = rec.starts[i.phase], &b = rec.snaps[i.phase + 1];
        for (auto &e : a) {
            if (e.second.kind == K_PIPE_IN) continue;
            auto it = b.find(e.first);
            if (it == b.end()) return "output-touched: " + e.first + " is gone after a run that could not start";
            if (it->second.data != e.second.data) return "output-touched: " + e.first + " changed in a run that could not start";
        }
        for (auto &e : b)
            if (!a.count(e.first)) return "output-touched: " + e.first + " was created by a run that could not start";
    }
    return "";
}

// ------------------------------------------------------------------ C10
// variant 0: different outputs, each first alone, then together; variant 1: same source into the same output
static Scenario make_C10(Rng &r, const Dry &dry) {
    Scenario sc;
    sc.prop = "C10";
    int n = r.range(2, 4);
    gen::Style st = gen::style(r);
    if (st.maxsteps > 30) st.maxsteps = 30;
    st.big = st.huge = false;
    if (r.chance(35)) {
        sc.variant = 1;
        One o = program(r, 0, &st);
        string src = srcname(r), out = outname(r);
        Phase p;
        p.puts.push_back(file(src, o.text));
        dirs(p, src, out);
        old_output(r, p, out, o.m.image);
        for (int k = 0; k < n; k++) {
            InstSpec is;
            is.argv = cmdline(r, src, out);
            is.k = knobs(r);
            p.insts.push_back(is);
        }
        p.schedseed = 1 + r.below(1u << 30);
        p.schedstick = r.pick(vector<int>{0, 0, 30, 60, 90, 97});
        sc.ph.push_back(p);
        return sc;
    }
    Phase last;
    One shared = program(r, 15, &st);
    bool common = r.chance(40);
    vector<InstSpec> specs;
    for (int k = 0; k < n; k++) {
        One o = common ? shared : program(r, 25, &st);
        string src = common ? "shared.asm" : "p" + std::to_string(k) + ".asm";
        string out = k == 0 && r.chance(50) ? "a.out" : "o" + std::to_string(k) + ".bin";
        if (!common || k == 0) last.puts.push_back(file(src, o.text));
        InstSpec is;
        is.argv = cmdline(r, src, out);
        is.k = knobs(r);
        specs.push_back(is);
    }
    for (int k = 0; k < n; k++) {
        Phase p;
        if (k == 0) p.puts = last.puts;
        p.insts.push_back(specs[k]);
        sc.ph.push_back(p);
    }
    last.puts.clear();
    for (int k = 0; k < n; k++) {
        Cmd c = cmd(specs[k].argv);
        FileSpec f = file(c.out, "");
        if (r.chance(40)) f.data = garbage(r, r.below(300));
        else f.kind = K_ABSENT;
        last.puts.push_back(f);
    }
    last.insts = specs;
    last.schedseed = 1 + r.below(1u << 30);
    last.schedstick = r.pick(vector<int>{0, 0, 30, 60, 90, 97});
    sc.ph.push_back(last);
    if (r.chance(50)) {
        RunRec d;
        dry(sc, d);
        int victim = n + (int)r.below(n);
        faults_for(r, sc, d, victim, 100, ALLOPS, true);
    }
    return sc;
}
static string check_C10(const Scenario &sc, const RunRec &rec) {
    size_t total = rec.inst.size();
    if (total < 2) return "";
    int lastph = rec.inst[total - 1].phase;
    std::set<string> outs;
    for (size_t n = 0; n < total; n++)
        if (rec.inst[n].phase == lastph) outs.insert(nrm(cmd(rec.inst[n].argv).out));
    size_t cnt = 0;
    for (size_t n = 0; n < total; n++) cnt += rec.inst[n].phase == lastph;
    bool shared = sc.variant == 1;
    if (!shared && outs.size() != cnt) return "";
    for (size_t n = 0; n < total; n++) {
        const InstRec &i = rec.inst[n];
        if (i.phase != lastph) continue;
        if (i.state == S_KILLED || i.hard) continue;   // the victims
        View v = view(rec, n);
        if (!v.c.ok || v.m.kind == model::UNSPEC) continue;
        if (shared) {
            if (v.m.kind != model::OK || unopenable(sc, i, v.c)) return "";
            if (i.state != S_EXITED || i.status != 0)
                return string("concurrent: one of several runs of the same program ") + statename(i.state) + " with status " + std::to_string(i.status) + ": " + trim(i.out).substr(0, 100);
            string s = check_success(v, i);
            if (!s.empty()) return "concurrent-" + s;
            continue;
        }
        // the same command line alone
        for (size_t k = 0; k < total; k++) {
            if (rec.inst[k].phase == lastph || rec.inst[k].argv != i.argv) continue;
            View w = view(rec, k);
            if (w.text != v.text) continue;
            const InstRec &a = rec.inst[k];
            if (a.state != i.state || a.status != i.status)
                return "concurrent: alone the run " + string(statename(a.state)) + " with status " + std::to_string(a.status) + ", together it " + statename(i.state) + " with status " + std::to_string(i.status);
            if (a.out != i.out || a.err != i.err) return "concurrent: a run prints something else than alone: " + trim(i.out).substr(0, 120);
            if (i.status == 0 && w.out != v.out) return "concurrent: a run leaves another output than alone: " + diff(v.out, w.out);
        }
        string s = check_success(v, i);
        if (!s.empty()) return "concurrent-" + s;
    }
    return "";
}

// ------------------------------------------------------------------ C11
static Scenario make_C11(Rng &r, const Dry &dry) {
    Scenario sc;
    sc.prop = "C11";
    sc.ph.resize(1);
    if (!tables_known || r.chance(25)) {   // a whole run
        gen::Style st = gen::style(r);
        int k = r.below(10);
        if (k < 8) (k < 4 ? st.labels_heavy : st.refs_heavy) = true;
        Phase &p = sc.ph[0];
        string src = srcname(r), out = outname(r);
        p.puts.push_back(file(src, program(r, 0, &st).text));
        dirs(p, src, out);
        InstSpec is;
        is.argv = cmdline(r, src, out);
        is.k = knobs(r);
        p.insts.push_back(is);
        RunRec d;
        dry(sc, d);
        if (r.chance(15)) {
            memory_limit(r, p.insts[0].k, d.inst[0]);
            return sc;
        }
        uint32_t c = d.inst[0].counts[OP_ALLOC];
        for (int n = r.range(1, 3); n > 0 && c; n--) {
            Fault f;
            f.op = OP_ALLOC;
            f.nth = r.chance(60) ? r.below(c) : c - 1 - r.below(c < 20 ? c : 20);
            f.arg = ENOMEM;
            f.persist = r.chance(15);
            sc.faults.push_back(f);
        }
        return sc;
    }
    string script;
    int n = r.pick(vector<int>{5, 12, 20, 30, 45, 80, 160});
    int space = r.pick(vector<int>{10, 40, 200, 500});
    int mix = r.below(3);   // 0 both, 1 labels, 2 references
    for (int i = 0; i < n; i++) {
        int k = r.below(10);
        char op = k < 2 ? 's' : mix == 1 ? 'i' : mix == 2 ? 'f' : k < 6 ? 'i' : 'f';
        script += op + std::to_string(r.below(space)) + ";";
    }
    InstSpec is;
    is.argv = {"@tables", script};
    is.k = plain(r);
    is.k.heapfill = r.below(4);
    sc.ph[0].insts.push_back(is);
    RunRec d;
    dry(sc, d);
    uint32_t c = d.inst[0].counts[OP_ALLOC];
    if (r.chance(12)) {
        memory_limit(r, sc.ph[0].insts[0].k, d.inst[0]);
        if (r.chance(60)) return sc;
    }
    int nf = r.range(1, 6);
    for (int i = 0; i < nf && c > 4; i++) {
        Fault f;
        f.op = OP_ALLOC;
        f.nth = 4 + r.below(c - 4 + 3);
        f.arg = ENOMEM;
        f.persist = r.chance(15);
        sc.faults.push_back(f);
    }
    return sc;
}
static string check_C11(const Scenario &sc, const RunRec &rec) {
    for (size_t n = 0; n < rec.inst.size(); n++) {
        const InstRec &i = rec.inst[n];
        if (i.argv[0] != "@tables") {
            View v = view(rec, n);
            string s = honest(sc, i, v);
            if (s.empty()) s = check_success(v, i);
            if (!s.empty()) return s;
            if (!ended(i) || i.status == 0 || !v.c.ok || v.m.kind != model::OK || unopenable(sc, i, v.c)) continue;
            string t = i.out + i.err;
            for (auto &ch : t) ch = (char)tolower(ch);
            for (auto w : {"memory", "alloc", "read", "resource"})   // a line that cannot be stored counts as not read
                if (t.find(w) != string::npos) t.clear();
            if (!t.empty()) return "other-cause: memory ran out, the run says: " + trim(i.out + i.err).substr(0, 100);
            continue;
        }
        if (!i.misuse.empty()) return "tables: " + i.misuse;
        if (i.state == S_SIGNALLED) return "tables: killed by signal " + std::to_string(i.signo) + " after memory ran out";
        if (i.state == S_HUNG) return "tables: does not end after memory ran out";
    }
    return "";
}

// ------------------------------------------------------------------ C12
static Scenario make_C12(Rng &r, const Dry &dry) {
    Scenario sc;
    sc.prop = "C12";
    int n = r.range(1, 3);
    string src = srcname(r), out = outname(r);
    vector<string> argv = cmdline(r, src, out);
    for (int k = 0; k < n; k++) {
        Phase p;
        bool last = k == n - 1;
        if (last || r.chance(60)) {
            gen::Style st = gen::style(r);
            if (last && r.chance(30)) {
                st.labels_heavy = r.chance(60);
                st.refs_heavy = r.chance(60);
                if (r.chance(10)) st.maxsteps = 700;
            }
            if (!last && r.chance(25)) (r.chance(60) ? st.labels_heavy : st.refs_heavy) = true;
            string t = last || r.chance(50) ? program(r, last ? 0 : 40, &st).text : gen::bytes(r);
            if (last && r.chance(2)) {
                // a great number of labels or references
                int m = r.pick(vector<int>{500, 1200, 3000, 5000});
                bool refs = r.chance(50);
                t = refs ? "" : ".ORG $10\n";
                for (int i = 0; i < m; i++) t += refs ? " JMP FAR" + std::to_string(i % 7) + "\n" : "LBL" + std::to_string(i * 7919 % 65536) + (i % 2 ? " = 5\n" : " NOP\n");
                for (int i = 0; i < 7 && refs; i++) t += "FAR" + std::to_string(i) + "\n";
            }
            FileSpec f = file(src, t);
            if (r.chance(10)) f.kind = K_PIPE_IN;
            p.puts.push_back(f);
        } else if (k == 0) p.puts.push_back(file(src, "NOP\n"));
        if (k == 0) dirs(p, src, out);
        if (!last && r.chance(10)) {
            dirs(p, src, out);
            odd_environment(r, p, src, out);
        } else if (k) {
            dirs(p, src, out);
            p.puts.push_back(file(out, "", K_ABSENT));
        }
        InstSpec is;
        is.argv = argv;
        is.k = knobs(r);
        p.insts.push_back(is);
        sc.ph.push_back(p);
    }
    if (n > 1) {
        RunRec d;
        dry(sc, d);
        for (int k = 0; k < n - 1; k++) {
            size_t before = sc.faults.size();
            if (r.chance(15)) memory_limit(r, inst_spec(sc, k).k, d.inst[k]);
            else if (r.chance(6)) meanwhile(r, sc, d.inst[k], k, "");
            else if (r.chance(8)) {
                sc.ph[k].disk = r.chance(50) ? 0 : r.below(200);
                if (sc.ph[k + 1].disk == -2) sc.ph[k + 1].disk = -1;
            } else faults_for(r, sc, d, k, 85, ALLOPS_STD, true);
            for (size_t i = before; i < sc.faults.size(); i++)
                if (sc.faults[i].act == A_FAIL && r.chance(50)) sc.faults[i].persist = true;
        }
    }
    return sc;
}
static string check_C12(const RunRec &rec) {
    for (auto &i : rec.inst)
        if (i.state == S_HUNG || i.state == S_BLOCKED) return "no-end: the run does not end";
    if (rec.inst.empty()) return "";
    const InstRec &i = rec.inst.back();
    View v = view(rec, rec.inst.size() - 1);
    if (!v.c.ok || !v.have_src || v.m.kind != model::OK || i.hard || i.state == S_KILLED) return "";
    if (v.out_exists && v.out_kind != K_REG) return "";
    if (i.state != S_EXITED || i.status != 0)
        return string("clean-run-fails: a valid program without any fault: the run ") + statename(i.state) + " with status " + std::to_string(i.status) + ": " + trim(i.out).substr(0, 120);
    return "";
}

// ------------------------------------------------------------------ C13
static Scenario make_C13(Rng &r, const Dry &dry) {
    Scenario sc;
    sc.prop = "C13";
    int n = r.range(2, 7);
    string src = srcname(r), out = outname(r);
    string prev;
    for (int k = 0; k < n; k++) {
        Phase p;
        if (k == 0 || r.chance(75)) {
            gen::Style st = gen::style(r);
            if (st.maxsteps > 60) st.maxsteps = 60;
            st.huge = false;
            if (r.chance(40)) st.maxsteps = r.range(0, 4);
            string t;
            if (k && r.chance(30)) {   // an edit of the previous text: some lines gone
                size_t a = r.below((uint32_t)prev.size() + 1);
                size_t nl = prev.find('\n', a);
                t = r.chance(50) ? prev.substr(0, nl == string::npos ? prev.size() : nl + 1) : (nl == string::npos ? "" : prev.substr(nl + 1));
            } else if (r.chance(4)) t = "";
            else t = program(r, 15, &st).text;
            prev = t;
            p.puts.push_back(file(src, t));
        }
        if (k == 0) {
            dirs(p, src, out);
            old_output(r, p, out, "0123456789");
        }
        InstSpec is;
        is.argv = cmdline(r, src, out);
        is.k = knobs(r);
        p.insts.push_back(is);
        sc.ph.push_back(p);
    }
    if (r.chance(65)) {
        RunRec d;
        dry(sc, d);
        for (int k = 0; k < n; k++)
            if (r.chance(5)) {
                sc.ph[k].disk = r.chance(30) ? 0 : r.below(200);
                if (k + 1 < n) sc.ph[k + 1].disk = -1;
            } else faults_for(r, sc, d, k, 35, ALLOPS, true);
    }
    return sc;
}
static string check_C13(const RunRec &rec) {
    for (size_t n = 0; n < rec.inst.size(); n++) {
        string s = check_success(view(rec, n), rec.inst[n]);
        if (!s.empty()) return "history-" + s + " (run " + std::to_string(n + 1) + " of " + std::to_string(rec.inst.size()) + ")";
    }
    return "";
}

// ------------------------------------------------------------------ C14
static Scenario make_C14(Rng &r) {
    Scenario sc;
    sc.prop = "C14";
    gen::Style st = gen::style(r);
    bool end = r.chance(60);
    st.want_end = end;
    One o = program(r, end ? 0 : 30, &st);
    string src = srcname(r), out = outname(r);
    vector<string> argv = cmdline(r, src, out);
    string piped = o.text;
    bool stall = false;
    size_t stop = o.m.kind == model::OK ? o.m.end_offset : o.m.kind == model::ERR ? o.m.err_offset : 0;
    if (stop) {
        int k = r.below(4);
        string head = o.text.substr(0, stop);
        if (k == 0) piped = head;
        else if (k == 1) piped = head + gen::bytes(r).substr(0, 3000);
        else if (k == 2) piped = head + r.pick(vector<string>{"LDA", "@", "JMP NOWHERE\n", "*=$FFFF\nNOP\n", "\n", ".", "L = 1\nL = 2\n"});
        stall = r.chance(70);
    }
    for (int k = 0; k < 2; k++) {
        Phase p;
        FileSpec f = file(src, k ? piped : o.text);
        if (k) {
            f.kind = K_PIPE_IN;
            f.stall = stall;
            size_t left = f.data.size();
            int mx = r.pick(vector<int>{1, 2, 7, 40, 130, 1000, 4096, 5000});
            while (left > 0 && f.chunks.size() < 3000 && (mx < 100 || r.chance(90))) {
                int c = r.range(1, mx);
                f.chunks.push_back(c);
                left = left > (size_t)c ? left - c : 0;
            }
            if (r.chance(40)) {   // a piece that ends exactly at a line end, or exactly behind .END
                f.chunks.clear();
                if (stop) {
                    size_t cut = stop;
                    if (r.chance(40)) f.chunks.push_back((int)r.below((uint32_t)cut) + 1);
                    size_t had = f.chunks.empty() ? 0 : f.chunks[0];
                    if (cut > had) f.chunks.push_back((int)(cut - had));
                    f.chunks.push_back(1);
                }
            }
        }
        p.puts.push_back(f);
        if (k == 0) dirs(p, src, out);
        p.puts.push_back(file(out, "", K_ABSENT));
        InstSpec is;
        is.argv = argv;
        is.k = k ? knobs(r) : plain(r);
        p.insts.push_back(is);
        sc.ph.push_back(p);
    }
    return sc;
}
static string check_C14(const Scenario &sc, const RunRec &rec) {
    if (rec.inst.size() < 2) return "";
    View a = view(rec, 0);
    for (size_t n = 1; n < rec.inst.size(); n++) {
        View b = view(rec, n);
        const InstRec &i = rec.inst[n];
        if (b.src_kind != K_PIPE_IN || i.argv != rec.inst[0].argv) continue;
        // comparable: the same text, or the same up to the line end of .END
        model::Result mb = b.m;
        size_t sa = a.m.kind == model::OK ? a.m.end_offset : a.m.kind == model::ERR ? a.m.err_offset : 0;
        size_t sb = mb.kind == model::OK ? mb.end_offset : mb.kind == model::ERR ? mb.err_offset : 0;
        bool cmpb = a.text == b.text || (a.m.kind == mb.kind && sa && sa == sb && a.text.compare(0, sa, b.text, 0, sa) == 0);
        if (!cmpb) continue;
        if (i.state == S_BLOCKED) {
            if (sa) return a.m.kind == model::OK ? "pipe: waits for more input although the .END line has arrived" : "pipe: waits for more input although a line that is wrong in itself has arrived";
            continue;
        }
        if (a.m.kind == model::UNSPEC) continue;
        string d = same(rec.inst[0], a, i, b);
        if (!d.empty()) return "pipe: file and pipe give " + d;
        if (a.m.kind == model::OK && !unopenable(sc, i, b.c)) {
            if (i.status != 0) return "pipe: a valid program fails: " + trim(i.out).substr(0, 100);
            string s = check_success(b, i);
            if (!s.empty()) return "pipe-" + s;
        }
    }
    return "";
}

// ------------------------------------------------------------------ C15
static Scenario make_C15(Rng &r, const Dry &dry) {
    Scenario sc = make_single("C15", r, dry, 30, 0, ALLOPS);
    InstSpec &is = sc.ph[0].insts[0];
    if (r.chance(12)) {   // nobody reads what gaia prints
        is.k.stdstall = r.chance(50) ? 1 : r.range(1, 200);
        if (r.chance(60)) is.k.stdoutmode = r.range(1, 2);
        return sc;
    }
    if (r.chance(45)) is.k.stdclosed = r.range(1, 7);
    if (r.chance(40)) is.k.stdoutmode = r.range(1, 2);
    if (!is.k.stdclosed || r.chance(20)) {
        RunRec d;
        dry(sc, d);
        uint32_t n = d.inst[0].counts[OP_STDOUT];
        Fault f;
        f.op = OP_STDOUT;
        f.nth = n && r.chance(60) ? r.below(n) : 0;
        f.arg = r.pick(vector<int>{EIO, ENOSPC, EPIPE, EPIPE, 1000 + EPIPE, EAGAIN});
        f.persist = r.chance(70);
        sc.faults.push_back(f);
    }
    return sc;
}
static string check_C15(const Scenario &sc, const RunRec &rec) {
    for (size_t n = 0; n < rec.inst.size(); n++) {
        const InstRec &i = rec.inst[n];
        View v = view(rec, n);
        bool unread = sc.ph[0].insts[0].k.stdstall > 0 && i.state == S_BLOCKED;
        if (i.state == S_SIGNALLED || i.state == S_HUNG || (i.state == S_BLOCKED && !unread)) return string("std-trouble: the run ") + statename(i.state);
        if (!v.c.ok || !v.have_src || v.m.kind == model::UNSPEC) continue;
        if (v.m.kind == model::ERR) {
            if (ended(i) && i.status == 0) return "std-trouble: exit status 0 for a source that is no valid program";
            continue;
        }
        if (unopenable(sc, i, v.c) || (v.out_exists && v.out_kind != K_REG)) continue;
        if (!v.out_exists) return "std-trouble: a valid program, and nothing but the standard streams is in trouble: no output file";
        if (v.out != v.m.image) return "std-trouble: a valid program, and nothing but the standard streams is in trouble, but the output is wrong: " + diff(v.out, v.m.image);
    }
    return "";
}

// ------------------------------------------------------------------ C18
static int ignorable(int s) { return s == SIGINT ? 1 : s == SIGQUIT ? 2 : s == SIGHUP ? 4 : s == SIGTERM ? 8 : 0; }
static bool ends_nothing(int s) { return s == SIGCHLD || s == SIGCONT || s == SIGURG || s == SIGWINCH; }
static Scenario make_C18(Rng &r, const Dry &dry) {
    Scenario sc = make_single("C18", r, dry, 15, 0, ALLOPS);
    InstSpec &is = sc.ph[0].insts[0];
    Cmd c = cmd(is.argv);
    bool ignore = r.chance(30);
    bool waits = !ignore && r.chance(40), pipe = false;
    for (auto &f : sc.ph[0].puts)
        if (f.path == c.src && (f.kind == K_REG || f.kind == K_PIPE_IN) && (waits || r.chance(25))) {
            f.kind = K_PIPE_IN;
            f.stall = waits;
            pipe = true;
            for (size_t left = f.data.size(); left && r.chance(85);) {
                size_t n = 1 + r.below(left > 300 ? 300 : (uint32_t)left);
                f.chunks.push_back((int)n);
                left -= n;
            }
            if (waits && r.chance(40)) f.data.resize(r.below((uint32_t)f.data.size() + 1));   // cut anywhere: no end of line
        }
    if (!ignore && !waits && r.chance(10)) is.k.stdstall = r.range(1, 60), waits = true;
    RunRec d;
    dry(sc, d);
    uint32_t n = d.inst[0].counts[OP_ANY];
    if (!n) return sc;
    int s = r.pick(vector<int>{SIGINT, SIGINT, SIGTERM, SIGTERM, SIGHUP, SIGQUIT});
    if (ignore) {
        if (r.chance(40)) s = r.pick(vector<int>{SIGCHLD, SIGCONT, SIGURG, SIGWINCH});
        else is.k.sigign = ignorable(s) | (r.chance(30) ? 15 : 0);
    } else if (r.chance(20)) is.k.sigign = r.range(1, 15) & ~ignorable(s);
    int many = r.chance(75) ? 1 : r.range(2, 4);
    for (int k = 0; k < many; k++) {
        Fault f;
        f.op = OP_ANY;
        f.nth = r.chance(25) ? n - 1 - r.below(n < 12 ? n : 12) : r.below(n);
        f.act = A_SIGNAL;
        f.arg = s;
        f.persist = (waits || pipe) && r.chance(70);
        sc.faults.push_back(f);
    }
    return sc;
}
static string check_C18(const Scenario &sc, const RunRec &rec) {
    if (rec.inst.size() != 1) return "";
    const InstRec &i = rec.inst[0];
    View v = view(rec, 0);
    const Knobs &k = sc.ph[0].insts[0].k;
    if (!v.c.ok || !i.asked || nrm(v.c.src) == nrm(v.c.out)) return "";
    if (i.state == S_SIGNALLED) return string("asked-to-end: the run ") + statename(i.state);
    bool odd = unopenable(sc, i, v.c) || (v.out_exists && v.out_kind != K_REG);
    if (ends_nothing(i.asked) || (k.sigign & ignorable(i.asked))) {
        if (i.state == S_KILLED || !ended(i)) return string("ignored-signal: a signal that was to have no effect, and the run ") + statename(i.state);
        if (odd || v.m.kind == model::UNSPEC) return "";
        if (v.m.kind == model::ERR) return i.status == 0 ? "ignored-signal: exit status 0 for a source that is no valid program" : "";
        if (i.status != 0) return "ignored-signal: a signal that was to have no effect, and a valid program fails: " + trim(i.out).substr(0, 100);
        string s = check_success(v, i);
        return s.empty() ? "" : "ignored-signal: " + s;
    }
    if (i.state == S_BLOCKED) return "asked-to-end: the run goes on waiting";
    if (i.state == S_HUNG) return "asked-to-end: the run does not end";
    // what finishing a line, writing out what is buffered and tidying up may take
    size_t line = 0, at = 0;
    for (size_t p; (p = v.text.find('\n', at)) != string::npos; at = p + 1) line = std::max(line, p - at);
    line = std::max(line, v.text.size() - at);
    if (i.events > i.asked_at + 600 + 3 * line + (k.wchunk ? k.bufsize : 0)) return "asked-to-end: the run goes on for " + std::to_string(i.events - i.asked_at) + " events";
    if (ended(i) && i.status == 0 && !odd && v.m.kind != model::UNSPEC) {
        if (v.m.kind == model::ERR) return "asked-to-end: exit status 0 for a source that is no valid program";
        string s = check_success(v, i);
        if (!s.empty()) return "asked-to-end: " + s;
    }
    return "";
}

// ------------------------------------------------------------------ C16
static Scenario make_C16(Rng &r, const Dry &dry) {
    Scenario sc = make_single("C16", r, dry, 30, 0, ALLOPS);
    Cmd c = cmd(sc.ph[0].insts[0].argv);
    RunRec d;
    dry(sc, d);
    uint32_t n = d.inst[0].counts[OP_ANY];
    if (!n) return sc;
    string text, image;
    for (auto &f : sc.ph[0].puts)
        if (f.path == c.src) text = f.data;
    int k = r.chance(65) ? 1 : 2;
    for (int e = 0; e < k; e++) {
        Edit x;
        x.nth = r.chance(20) ? r.below(n < 40 ? n : 40) : r.chance(25) ? n - 1 - r.below(n < 12 ? n : 12) : r.below(n);
        bool src = r.chance(60);
        x.mode = r.pick(vector<int>{E_REPLACE, E_REPLACE, E_REPLACE, E_REMOVE, E_MOVE});
        x.f.path = src ? c.src : c.out;
        if (x.mode == E_MOVE) x.f.data = src ? "moved.asm" : "moved.bin";
        if (x.mode == E_REPLACE) {
            if (!src) x.f.data = r.chance(30) ? "" : garbage(r, r.below(400));
            else switch (r.below(5)) {
            case 0: x.f.data = ""; break;
            case 1: x.f.data = text + " NOP\n"; break;
            case 2: x.f.data = text.substr(0, r.below((uint32_t)text.size() + 1)); break;
            default: {
                gen::Style st = gen::style(r);
                st.huge = false;
                x.f.data = program(r, 30, &st).text;
            }
            }
        }
        sc.edits.push_back(x);
    }
    return sc;
}
static string check_C16(const Scenario &sc, const RunRec &rec) {
    if (rec.inst.size() != 1) return "";
    const InstRec &i = rec.inst[0];
    View v = view(rec, 0);
    if (!v.c.ok || nrm(v.c.src) == nrm(v.c.out)) return "";
    // the source as it was when it was opened
    bool fixed = false, outmoved = false;
    std::map<string, const string *> stay;   // the files put in place that nobody else touches
    vector<size_t> order(sc.edits.size());
    for (size_t k = 0; k < order.size(); k++) order[k] = k;
    std::stable_sort(order.begin(), order.end(), [&](size_t a, size_t b) { return sc.edits[a].nth < sc.edits[b].nth; });
    for (size_t k : order) {
        const Edit &e = sc.edits[k];
        const EditRec &x = rec.edits[k];
        if (!x.applied || e.mode >= E_REWRITE) continue;
        string p = nrm(e.f.path);
        if (e.mode == E_REPLACE && (p == nrm(v.c.src) || x.opened)) stay[p] = &e.f.data;
        else stay.erase(p);
        if (p == nrm(v.c.src)) {
            if (fixed) continue;
            if (x.opened || x.tried) { fixed = true; continue; }   // the version before this edit
            v.have_src = e.mode == E_REPLACE;
            v.text = e.mode == E_REPLACE ? e.f.data : "";
            v.src_kind = e.mode == E_REPLACE ? K_REG : K_ABSENT;
            v.m = v.have_src ? model::assemble(v.text) : model::Result();
            if (!v.have_src) v.m.kind = model::ERR;
        } else if (p == nrm(v.c.out) && x.opened) {
            if (x.placed >= 0 && x.placed_final != e.f.data) return "replaced: the file put in the place of the output while gaia was running is changed: " + diff(x.placed_final, e.f.data);
            if (outmoved) continue;
            outmoved = true;
            v.out_exists = true;
            v.out_kind = K_REG;
            v.out = x.old_final;
        }
    }
    for (auto &f : stay) {
        auto it = rec.snaps.back().find(f.first);
        if (it == rec.snaps.back().end()) return "replaced: the file put in the place of " + f.first + " while gaia was running is gone";
        if (it->second.data != *f.second) return "replaced: the file put in the place of " + f.first + " while gaia was running is not there any more";
    }
    if (v.m.kind == model::UNSPEC) return "";
    string s = check_success(v, i);
    if (!s.empty()) return "replaced-" + s;
    s = honest(sc, i, v);
    if (!s.empty()) return "replaced-" + s;
    if (!v.have_src || v.m.kind != model::OK || env_failed(sc, i, v.c)) return "";
    if (i.state != S_EXITED || i.status != 0)
        return string("replaced: the source it opened is a valid program, but the run ") + statename(i.state) + " with status " + std::to_string(i.status) + ": " + trim(i.out).substr(0, 120);
    return "";
}

// ------------------------------------------------------------------ C17
static long memory_needed(const string &text, const model::Result &m) {
    return 524288 + 4 * (long)text.size() + 512 * ((long)m.nsyms + m.nrefs);
}
static Scenario make_C17(Rng &r, const Dry &dry) {
    gen::Style st = gen::style(r);
    if (r.chance(25)) (r.chance(50) ? st.labels_heavy : st.refs_heavy) = true;
    if (r.chance(10)) st.maxsteps = 2500;
    int bulk = r.below(100);
    if (bulk < 3) st.refs_heavy = true, st.maxsteps = 2500;
    Scenario sc;
    sc.prop = "C17";
    sc.ph.resize(1);
    Phase &p = sc.ph[0];
    One o = program(r, 0, &st);
    // what is kept for each line, or for the longest one, must show beside the fixed amount
    string front;
    if (bulk < 3) front = ";" + string(r.range(8000, 50000), 'x') + "\n";
    else if (bulk < 5) {
        string l = r.pick(vector<string>{"\n", ";\n", " \n", "\r\n"});
        for (int n = r.pick(vector<int>{15000, 25000, 40000, 70000}); n > 0; n--) front += l;
    }
    if (!front.empty()) {
        o.text = front + o.text;
        o.m = model::assemble(o.text);
    }
    string src = srcname(r), out = outname(r);
    p.puts.push_back(file(src, o.text, r.chance(10) ? K_PIPE_IN : K_REG));
    dirs(p, src, out);
    old_output(r, p, out, o.m.image);
    InstSpec is;
    is.argv = cmdline(r, src, out);
    is.k = front.empty() ? knobs(r) : plain(r);
    if (o.m.kind == model::OK) {
        int w = r.range(1, 7) | (front.empty() ? 0 : 4);
        if (w & 1) sc.disk_free = (long)o.m.image.size() + (r.chance(50) ? 0 : r.below(100));
        if (w & 2) is.k.maxfd = r.chance(75) ? 5 : r.range(5, 8);
        if (w & 4) is.k.memlimit = (int)memory_needed(o.text, o.m);
    }
    p.insts.push_back(is);
    (void)dry;
    return sc;
}
static string check_C17(const Scenario &sc, const RunRec &rec) {
    for (size_t n = 0; n < rec.inst.size(); n++) {
        const InstRec &i = rec.inst[n];
        View v = view(rec, n);
        if (!v.c.ok || !v.have_src || v.m.kind != model::OK || unopenable(sc, i, v.c)) continue;
        if (sc.disk_free >= 0 && sc.disk_free < (long)v.m.image.size()) continue;
        const Knobs *k = nullptr;
        size_t id = n;
        for (auto &p : sc.ph) {
            if (id < p.insts.size()) { k = &p.insts[id].k; break; }
            id -= p.insts.size();
        }
        if (!k || (k->maxfd && k->maxfd < 5) || k->memmax || (k->memlimit && k->memlimit < memory_needed(v.text, v.m))) continue;
        if (i.state != S_EXITED || i.status != 0)
            return string("scarcity: room for the image (") + std::to_string(v.m.image.size()) + " bytes), two files and " + std::to_string(memory_needed(v.text, v.m)) + " bytes of memory is not enough: the run " + statename(i.state) +
                   " with status " + std::to_string(i.status) + ": " + trim(i.out).substr(0, 120);
        string s = check_success(v, i);
        if (!s.empty()) return "scarcity-" + s;
    }
    return "";
}

// ------------------------------------------------------------------ C19
static FileSpec linkto(const string &path, const string &target, int kind = K_LINK) { return file(path, target, kind); }
static FileSpec moded(FileSpec f, int mode) {
    f.mode = mode;
    return f;
}
static Scenario make_C19(Rng &r, const Dry &dry) {
    Scenario sc;
    sc.prop = "C19";
    int n = r.chance(65) ? 1 : r.range(2, 3);
    string src, text_at, out;
    for (int k = 0; k < n; k++) {
        Phase p;
        One o = program(r, 20);
        if (!k) {
            p.puts.push_back(moded(file("dir", "", K_DIR), 0755));
            p.puts.push_back(linkto("dl", r.chance(50) ? "dir" : "/sim/dir/"));
            bool deep = r.chance(25);
            if (deep) {
                p.puts.push_back(moded(file("dir/sub", "", K_DIR), 0755));
                p.puts.push_back(linkto("dl2", "dir/sub"));
            }
            // the source, under some name
            text_at = r.pick(vector<string>{"prog.asm", "prog.asm", "dir/prog.asm"});
            p.puts.push_back(moded(file(text_at, o.text), r.pick(vector<int>{0644, 0644, 0400, 0444, 0600, 0664})));
            switch (r.below(6)) {
            case 0: p.puts.push_back(linkto(src = "s.asm", text_at)); break;
            case 1: p.puts.push_back(linkto(src = "s.asm", text_at, K_HARD)); break;
            case 2:
                p.puts.push_back(linkto("dir/s2.asm", "../" + text_at));
                p.puts.push_back(linkto(src = "s.asm", "dl/s2.asm"));
                break;
            case 3: src = text_at[0] == 'd' ? "dl/prog.asm" : "dir/../prog.asm"; break;
            default: src = text_at;
            }
            // the output
            static const vector<int> modes = {0644, 0600, 0664, 0666, 0640, 0755, 0700, 0604, 0622, 0222, 0200};
            string real = r.pick(vector<string>{"real.bin", "dir/real.bin", "dir/real.bin"});
            string data = r.chance(30) ? "" : garbage(r, r.below((uint32_t)o.m.image.size() + 200));
            bool there = r.chance(75);
            switch (r.below(12)) {
            case 0: out = r.pick(vector<string>{"a.out", "out.bin", "dir/out.bin", "dl/out.bin", "dir/../dir/out.bin", deep ? "dl2/../out.bin" : "dl/../out.bin"}); there = false; break;
            case 1: case 2: out = real; there = true; break;
            case 3: case 4: p.puts.push_back(linkto(out = "out.bin", (r.chance(20) ? "/sim/" : "") + real)); break;
            case 5: p.puts.push_back(linkto(out = "dir/out.bin", "../" + real)); break;
            case 6:
                p.puts.push_back(linkto("l2", real));
                p.puts.push_back(linkto(out = r.pick(vector<string>{"out.bin", "a.out"}), "l2"));
                break;
            case 7: real = "dir/real.bin"; out = deep ? "dl2/../real.bin" : "dl/real.bin"; break;
            case 8: out = "out.bin"; there = false; p.puts.push_back(file(out, "", K_NULL)); break;
            default: out = "out.bin"; there = true; break;   // hard links
            }
            if (there) {
                p.puts.push_back(moded(file(real, data), r.pick(modes)));
                if (out == "out.bin" && !std::any_of(p.puts.begin(), p.puts.end(), [&](FileSpec &f) { return f.path == out; })) p.puts.push_back(linkto(out, real, K_HARD));
                if (r.chance(35)) p.puts.push_back(linkto("copy.bin", real, K_HARD));
                if (r.chance(15)) p.puts.push_back(linkto("dir/copy.bin", real, K_HARD));
                // the right to write the file does not mean that to make or remove others
                if (r.chance(20)) p.puts.push_back(moded(file(".", "", K_DIR), 0555));
                if (r.chance(20)) p.puts.push_back(moded(linkto("dir", "", K_DIR), 0555));
            }
            if (r.chance(30)) p.puts.push_back(file("keep.txt", "keep"));
        } else p.puts.push_back(file(text_at, o.text));
        InstSpec is;
        is.argv = cmdline(r, (r.chance(10) ? "/sim/" : "") + src, out == "a.out" || r.chance(90) ? out : "/sim/" + out);
        is.k = knobs(r);
        is.k.mask = r.pick(vector<int>{022, 022, 077, 027, 002, 0, 0177});
        p.insts.push_back(is);
        sc.ph.push_back(p);
    }
    if (r.chance(55)) {
        RunRec d;
        dry(sc, d);
        for (int k = 0; k < n; k++) faults_for(r, sc, d, k, 70, ALLOPS_STD, true);
    }
    return sc;
}
// the name behind a path: symbolic links followed
static string behind(const Snap &s, const string &path, int depth = 0) {
    if (depth > 20) return "";
    string p = path, done;
    if (p.compare(0, 5, "/sim/") == 0) p = p.substr(5);
    size_t i = 0;
    while (i < p.size()) {
        size_t e = p.find('/', i);
        if (e == string::npos) e = p.size();
        string c = p.substr(i, e - i), rest = e < p.size() ? p.substr(e + 1) : "";
        i = e + 1;
        if (c.empty() || c == ".") continue;
        if (c == "..") {
            size_t k = done.rfind('/');
            done = k == string::npos ? "" : done.substr(0, k);
            continue;
        }
        string q = done.empty() ? c : done + "/" + c;
        auto it = s.find(q);
        if (it != s.end() && it->second.kind == K_LINK) {
            const string &t = it->second.data;
            string to = t[0] == '/' ? t : (done.empty() ? "" : done + "/") + t;
            return behind(s, to + (rest.empty() ? "" : "/" + rest), depth + 1);
        }
        done = q;
    }
    return done;
}
static string check_C19(const RunRec &rec) {
    for (size_t n = 0; n < rec.inst.size(); n++) {
        const InstRec &i = rec.inst[n];
        Cmd c = cmd(i.argv);
        if (!c.ok) continue;
        const Snap &a = rec.starts[i.phase], &b = rec.snaps[i.phase + 1];
        string at = behind(a, c.out), from = behind(a, c.src);
        auto was = a.find(at), is = b.find(at), src = a.find(from);
        int ino = was == a.end() ? -1 : was->second.ino;
        for (auto &e : a) {
            auto it = b.find(e.first);
            const FileSnap &x = e.second;
            char m[80];
            if (it == b.end()) return "identity: the name " + e.first + " is gone";
            if (it->second.ino != x.ino || it->second.kind != x.kind) return "identity: " + e.first + " is another file than before";
            snprintf(m, sizeof m, "%04o, it was %04o", it->second.perm, x.perm);
            if (it->second.perm != x.perm) return "permissions: those of " + e.first + " are " + m;
            if (x.ino != ino && it->second.data != x.data) return "identity: " + e.first + " changed and is not the output";
        }
        if (!ended(i)) continue;
        for (auto &e : b)
            if (!i.signals && !a.count(e.first) && e.first != at) return "left-behind: " + e.first;
        if (was == a.end() && is != b.end()) {
            char m[80];
            int want = 0666 & ~i.umask;
            snprintf(m, sizeof m, "%04o instead of %04o", is->second.perm, want);
            if (is->second.kind != K_REG) return "new-file: the output is no ordinary file";
            if (is->second.perm != want) return string("new-file: the permissions of the output are ") + m;
        }
        if (src == a.end() || src->second.kind != K_REG) continue;
        model::Result m = model::assemble(src->second.data);
        if (m.kind == model::UNSPEC) continue;
        if (m.kind == model::ERR) {
            if (i.status == 0) return "linked-false-success: success for a source that is no valid program";
            continue;
        }
        if (i.status == 0) {
            if (is == b.end()) return "linked-wrong-image: success, but what the output path names does not exist";
            if (is->second.kind == K_REG && is->second.data != m.image) return "linked-wrong-image: success but the file the output path names is wrong: " + diff(is->second.data, m.image);
            continue;
        }
        if (i.hard || i.hard_by_op[OP_SEEK] || i.signals || !(src->second.perm & 0400)) continue;
        if (was != a.end()) {
            if ((was->second.kind != K_REG && was->second.kind != K_NULL) || !(was->second.perm & 0200)) continue;
        } else {
            size_t k = at.rfind('/');
            auto d = a.find(k == string::npos ? "." : at.substr(0, k));
            if (at.empty() || (k != string::npos && d == a.end()) || (d != a.end() && (d->second.kind != K_DIR || !(d->second.perm & 0200)))) continue;
        }
        return "refused: a valid program failed although its source can be read and its output can be written: " + trim(i.out).substr(0, 120);
    }
    return "";
}

// ------------------------------------------------------------------ table
const Info table[] = {
    {"C01", "one program, one run; faults and short transfers placed on events of its dry run", 150000, 1500000, false},
    {"C02", "one program (60% invalid), one run; faults, odd file system states", 150000, 1500000, false},
    {"C03", "one program run 2-3 times under different delivery, buffering, memory contents", 130000, 1200000, false},
    {"C04", "mutated and well-formed texts under AddressSanitizer/UBSan with faults", 80000, 1000000, true},
    {"C05", "one run, allocation and I/O failures at every kind of event", 150000, 1500000, false},
    {"C06", "1-3 kills (or power cuts) at any event, then a rerun", 70000, 1200000, false},
    {"C07", "one run, killed near its end or failing in write/seek/close, three stdout modes", 150000, 1500000, false},
    {"C08", "1-2 runs among bystander files, faults and kills", 150000, 1500000, false},
    {"C09", "start-up failures of every kind with a previous output present", 130000, 1200000, false},
    {"C10", "2-4 concurrent runs under a seeded scheduler, one may fail or be killed", 110000, 1000000, false},
    {"C11", "operations on the tables with 1-6 allocation failures; whole runs of a valid program with 1-3", 150000, 1500000, false},
    {"C12", "0-2 faulty runs (half of the faults persistent), then a clean one", 130000, 1200000, false},
    {"C13", "histories of 2-7 edits and runs with failures and kills", 110000, 1000000, false},
    {"C14", "the same text as file and as pipe, cut anywhere, with pauses and writers that never close", 130000, 1200000, false},
    {"C15", "one run whose standard streams are closed, full, broken or interrupted", 150000, 1500000, false},
    {"C16", "one run whose source or output is replaced, moved or removed meanwhile", 150000, 1500000, false},
    {"C17", "one run with exactly the disk space, descriptors and memory it may need", 110000, 1200000, false},
    {"C18", "one run that is sent SIGINT, SIGTERM, SIGHUP or SIGQUIT, also while it waits, or a signal that it is to ignore", 150000, 1500000, false},
    {"C19", "1-3 runs whose source and output are reached through links, or exist with permissions of their own; faults and kills", 150000, 1500000, false},
};
const int ntable = (int)(sizeof table / sizeof *table);
const Info *info(const string &id) {
    for (auto &t : table)
        if (id == t.id) return &t;
    return nullptr;
}

Scenario make(const string &prop, uint64_t seed, const Dry &dry_) {
    Dry dry = [&](const Scenario &s, RunRec &r) {
        Scenario c = s;   // named, should the dry run itself show something
        c.prop = prop;
        c.seed = seed;
        dry_(c, r);
    };
    Rng r(seed * 0x9e3779b97f4a7c15ull + (uint64_t)(prop[1] * 10 + prop[2]) * 0x1234567ull);
    r.next();
    Scenario sc;
    int n = atoi(prop.c_str() + 1);
    switch (n) {
    case 1: sc = make_C01(r, dry); break;
    case 2: sc = make_C02(r, dry); break;
    case 3: sc = make_C03(r); break;
    case 4: sc = make_C04(r, dry); break;
    case 5: sc = make_C05(r, dry); break;
    case 6: sc = make_C06(r, dry); break;
    case 7: sc = make_C07(r, dry); break;
    case 8: sc = make_C08(r, dry); break;
    case 9: sc = make_C09(r, dry); break;
    case 10: sc = make_C10(r, dry); break;
    case 11: sc = make_C11(r, dry); break;
    case 12: sc = make_C12(r, dry); break;
    case 13: sc = make_C13(r, dry); break;
    case 14: sc = make_C14(r); break;
    case 15: sc = make_C15(r, dry); break;
    case 16: sc = make_C16(r, dry); break;
    case 17: sc = make_C17(r, dry); break;
    case 18: sc = make_C18(r, dry); break;
    case 19: sc = make_C19(r, dry); break;
    }
    sc.prop = prop;
    sc.seed = seed;
    return sc;
}

Hooks hooks(const Scenario &sc) {
    Hooks h;
    if (sc.prop != "C07") return h;
    // single run: its image, once
    struct St { model::Result m; string out; };
    auto st = std::make_shared<St>();
    bool found = false;
    for (auto &p : sc.ph)
        for (auto &is : p.insts) {
            Cmd c = cmd(is.argv);
            if (!c.ok) continue;
            for (auto &f : p.puts)
                if (nrm(f.path) == nrm(c.src) && (f.kind == K_REG || f.kind == K_PIPE_IN)) {
                    st->m = model::assemble(f.data);
                    st->out = nrm(c.out);
                    found = true;
                }
        }
    if (!found || st->m.kind != model::OK) return h;
    h.on_stdout = [st](int i) {
        InstRec &x = rec().inst[i];
        if (x.ack || x.out.find(SUCCESS) == string::npos) return;
        x.ack = true;
        const string *d = file_data(st->out);
        if (!d || *d != st->m.image) x.ack_violation = "the success report is visible while the output is not complete (" + (d ? diff(*d, st->m.image) : string("absent")) + ")";
    };
    h.after_event = [st](int i) -> string {
        InstRec &x = rec().inst[i];
        if (!x.ack || !x.ack_violation.empty()) return "";
        const string *d = file_data(st->out);
        if (!d || *d != st->m.image) x.ack_violation = "the output changes after the success report";
        return "";
    };
    return h;
}

string check(const Scenario &sc, const RunRec &rec) {
    switch (atoi(sc.prop.c_str() + 1)) {
    case 1: return check_C01(rec);
    case 2: return check_C02(sc, rec);
    case 3: return check_C03(sc, rec);
    case 4: return check_C04(rec);
    case 5: return check_C05(rec);
    case 6: return check_C06(sc, rec);
    case 7: return check_C07(sc, rec);
    case 8: return check_C08(rec);
    case 9: return check_C09(rec);
    case 10: return check_C10(sc, rec);
    case 11: return check_C11(sc, rec);
    case 12: return check_C12(rec);
    case 13: return check_C13(rec);
    case 14: return check_C14(sc, rec);
    case 15: return check_C15(sc, rec);
    case 16: return check_C16(sc, rec);
    case 17: return check_C17(sc, rec);
    case 18: return check_C18(sc, rec);
    case 19: return check_C19(rec);
    }
    return "";
}

bool nontrivial(const Scenario &sc, const RunRec &rec) {
    // something other than an undisturbed run of an empty program happened
    uint64_t ev = 0;
    for (auto &i : rec.inst) ev += i.events;
    bool fired = rec.switches > 0;
    for (int i = 0; i < NFSTAT; i++) fired |= fault_fired[i] > 0;
    if (sc.prop == "C11" || sc.prop == "C04") return ev > 12;
    return fired || ev > 40;
}

}  // namespace props
