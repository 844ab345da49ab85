// Replay files: one scenario, written out completely.
#include "kernel.h"
#include <cstdlib>
#include <cstring>
#include <sstream>

namespace sim {

static std::string esc(const std::string &s) {
    std::string o = "\"";
    for (size_t i = 0; i < s.size(); i++) {
        unsigned char c = s[i];
        size_t run = 1;
        while (i + run < s.size() && s[i + run] == s[i]) run++;
        if (run >= 100) {   // \*100:x is a hundred times x
            o += "\\*" + std::to_string(run) + ":";
            i += run - 1;
        }
        if (c == '\n') o += "\\n";
        else if (c == '\t') o += "\\t";
        else if (c == '\r') o += "\\r";
        else if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c < 32 || c >= 127) {
            char b[8];
            snprintf(b, sizeof b, "\\x%02x", c);
            o += b;
        } else o += (char)c;
    }
    return o + "\"";
}
static const char *const kinds[] = {"file", "dir", "null", "full", "pipe", "pipe_out", "sink", "absent", "symlink", "hardlink"};

static void put_spec(std::ostringstream &o, const FileSpec &f) {
    o << kinds[f.kind] << " " << esc(f.path) << " r " << f.r << " w " << f.w;
    if (f.mode >= 0) o << " mode " << f.mode;
    o << " stall " << f.stall << " chunks " << f.chunks.size();
    for (int c : f.chunks) o << " " << c;
    o << " data " << esc(f.data) << "\n";
}
std::string serialize(const Scenario &s) {
    std::ostringstream o;
    o << "gaia-sim-replay 1\n";
    o << "property " << s.prop << "\nseed " << s.seed << "\nvariant " << s.variant << "\ndisk_free " << s.disk_free << "\n";
    for (auto &p : s.ph) {
        o << "phase schedseed " << p.schedseed << " stick " << p.schedstick;
        if (!p.sched.empty()) {
            o << " sched";
            for (auto &e : p.sched) o << " " << e.first << ":" << e.second;
        }
        o << "\n";
        if (p.disk > -2) o << "  disk " << p.disk << "\n";
        for (auto &f : p.puts) {
            o << "  put ";
            put_spec(o, f);
        }
        for (auto &i : p.insts) {
            o << "  run rchunk " << i.k.rchunk << " wchunk " << i.k.wchunk << " bufsize " << i.k.bufsize << " stdout " << i.k.stdoutmode << " heapfill "
              << i.k.heapfill << " stackfill " << i.k.stackfill << " kseed " << i.k.seed;
            if (i.k.memmax) o << " memmax " << i.k.memmax;
            if (i.k.memlimit) o << " memlimit " << i.k.memlimit;
            if (i.k.stdclosed) o << " stdclosed " << i.k.stdclosed;
            if (i.k.maxfd) o << " maxfd " << i.k.maxfd;
            if (i.k.stdstall) o << " stdstall " << i.k.stdstall;
            if (i.k.sigign) o << " sigign " << i.k.sigign;
            if (i.k.mask != 022) o << " umask " << i.k.mask;
            o << " argv";
            for (auto &a : i.argv) o << " " << esc(a);
            o << "\n";
        }
    }
    for (auto &f : s.faults)
        o << "fault inst " << f.inst << " op " << op_name[f.op] << " nth " << f.nth << " act " << act_name[f.act] << " arg " << f.arg << " persist " << f.persist
          << "\n";
    for (auto &e : s.edits) {
        o << "edit inst " << e.inst << " nth " << e.nth << " mode " << edit_name[e.mode] << " ";
        put_spec(o, e.f);
    }
    o << "end\n";
    return o.str();
}

namespace {
struct P {
    const std::string &s;
    size_t i;
    void sp() { while (i < s.size() && s[i] == ' ') i++; }
    bool eol() { sp(); return i >= s.size() || s[i] == '\n'; }
    void nl() { while (i < s.size() && s[i] != '\n') i++; if (i < s.size()) i++; }
    std::string word() {
        sp();
        size_t b = i;
        while (i < s.size() && s[i] != ' ' && s[i] != '\n') i++;
        return s.substr(b, i - b);
    }
    long long num() { return strtoll(word().c_str(), nullptr, 10); }
    uint64_t unum() { return strtoull(word().c_str(), nullptr, 10); }
    std::string str() {
        sp();
        std::string o;
        if (i >= s.size() || s[i] != '"') return o;
        i++;
        while (i < s.size() && s[i] != '"') {
            if (s[i] == '\\') {
                i++;
                size_t run = 1;
                if (s[i] == '*') {
                    char *e;
                    run = strtoul(s.c_str() + i + 1, &e, 10);
                    if (*e == ':') e++;
                    i = e - s.c_str();
                    if (i < s.size() && s[i] != '\\') { o.append(run, s[i++]); continue; }
                    i++;
                    if (i >= s.size()) break;
                    o.append(run - 1, s[i] == 'n' ? '\n' : s[i] == 't' ? '\t' : s[i] == 'r' ? '\r' : s[i] == 'x' ? (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16) : s[i]);
                }
                char c = s[i];
                if (c == 'n') o += '\n';
                else if (c == 't') o += '\t';
                else if (c == 'r') o += '\r';
                else if (c == 'x') {
                    o += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16);
                    i += 2;
                } else o += c;
                i++;
            } else o += s[i++];
        }
        i++;
        return o;
    }
};
int idx(const char *const *t, int n, const std::string &w);
FileSpec get_spec(P &p) {
    FileSpec f;
    f.kind = idx(kinds, NKINDS, p.word());
    f.path = p.str();
    p.word(); f.r = p.num();
    p.word(); f.w = p.num();
    if (p.word() == "mode") {
        f.mode = (int)p.num();
        p.word();
    }
    f.stall = p.num();
    p.word();
    long n = (long)p.num();
    for (long i = 0; i < n; i++) f.chunks.push_back((int)p.num());
    p.word();
    f.data = p.str();
    return f;
}
int idx(const char *const *t, int n, const std::string &w) {
    for (int i = 0; i < n; i++)
        if (w == t[i]) return i;
    return 0;
}
}  // namespace

bool parse(const std::string &text, Scenario &sc) {
    sc = Scenario();
    P p{text, 0};
    if (p.word() != "gaia-sim-replay") return false;
    p.nl();
    while (p.i < text.size()) {
        std::string k = p.word();
        if (k == "property") sc.prop = p.word();
        else if (k == "seed") sc.seed = p.unum();
        else if (k == "variant") sc.variant = (int)p.num();
        else if (k == "disk_free") sc.disk_free = (long)p.num();
        else if (k == "phase") {
            sc.ph.emplace_back();
            Phase &ph = sc.ph.back();
            p.word();
            ph.schedseed = p.unum();
            p.word();
            ph.schedstick = (int)p.num();
            if (!p.eol()) {
                p.word();
                while (!p.eol()) {
                    std::string w = p.word();
                    ph.sched.push_back({atoi(w.c_str()), atoi(w.c_str() + w.find(':') + 1)});
                }
            }
        } else if (k == "disk") sc.ph.back().disk = (long)p.num();
        else if (k == "put") {
            sc.ph.back().puts.push_back(get_spec(p));
        } else if (k == "run") {
            InstSpec is;
            p.word(); is.k.rchunk = (int)p.num();
            p.word(); is.k.wchunk = (int)p.num();
            p.word(); is.k.bufsize = (int)p.num();
            p.word(); is.k.stdoutmode = (int)p.num();
            p.word(); is.k.heapfill = (int)p.num();
            p.word(); is.k.stackfill = (int)p.num();
            p.word(); is.k.seed = p.unum();
            for (std::string w = p.word(); w != "argv" && !w.empty(); w = p.word()) (w == "memmax" ? is.k.memmax : w == "memlimit" ? is.k.memlimit : w == "stdclosed" ? is.k.stdclosed : w == "stdstall" ? is.k.stdstall : w == "sigign" ? is.k.sigign : w == "umask" ? is.k.mask : is.k.maxfd) = (int)p.num();
            while (!p.eol()) is.argv.push_back(p.str());
            sc.ph.back().insts.push_back(is);
        } else if (k == "fault") {
            Fault f;
            p.word(); f.inst = (int)p.num();
            p.word(); f.op = idx(op_name, NOPS + 1, p.word());
            p.word(); f.nth = (uint32_t)p.num();
            p.word(); f.act = idx(act_name, NACTS, p.word());
            p.word(); f.arg = (int)p.num();
            p.word(); f.persist = p.num();
            sc.faults.push_back(f);
        } else if (k == "edit") {
            Edit e;
            p.word(); e.inst = (int)p.num();
            p.word(); e.nth = (uint32_t)p.num();
            p.word(); e.mode = idx(edit_name, NEDITS, p.word());
            e.f = get_spec(p);
            sc.edits.push_back(e);
        } else if (k == "end") return true;
        p.nl();
    }
    return true;
}

}  // namespace sim
