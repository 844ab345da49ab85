#include "gen.h"
#include <algorithm>

using sim::Rng;
using std::string;
using std::vector;

namespace gen {

namespace {
struct G {
    Rng &r;
    Style st;
    vector<string> lines;
    long pc = 0;
    int casing = 0;              // 0 upper, 1 lower, 2 mixed
    int longpct = 0;             // share of lines with a long comment
    int spread = 0;              // extra blanks between tokens
    int serial = 0;
    vector<std::pair<string, long>> syms;   // defined so far (as spelled upper-case)
    vector<string> want;                    // referenced, not yet defined (jump targets)
    vector<std::pair<long, long>> used;     // address ranges
    string stem;
    bool longstem = false;       // most names share a long beginning
    bool overlap = false;        // code may be placed over earlier code
    explicit G(Rng &r_) : r(r_) {}

    string cs(const string &s) {
        string o = s;
        for (auto &c : o) {
            bool low = casing == 1 || (casing == 2 && r.chance(50));
            if (low && c >= 'A' && c <= 'Z') c = (char)(c + 32);
        }
        return o;
    }
    string ws(int least) {
        string o;
        int n = least + (spread && r.chance(spread) ? r.range(0, 3) : 0);
        for (int i = 0; i < n; i++) o += r.chance(25) ? '\t' : ' ';
        if (r.permille(2)) o += string(r.range(100, 300), ' ');
        return o;
    }
    string num(long v) {
        char b[80];
        switch (r.below(8)) {
        case 0: snprintf(b, sizeof b, "%ld", v); break;
        case 1: snprintf(b, sizeof b, "%05ld", v); break;
        case 2: {
            string s = "%";
            bool on = false;
            for (int i = 15; i >= 0; i--) {
                if ((v >> i) & 1) on = true;
                if (on || i == 0) s += ((v >> i) & 1) ? '1' : '0';
            }
            if (r.chance(20)) s.insert(1, string(r.range(1, 20), '0'));
            return s;
        }
        case 3: snprintf(b, sizeof b, "$%lx", v); break;
        case 4: snprintf(b, sizeof b, "$%04lX", v); break;
        case 5: {
            string s = "$";
            snprintf(b, sizeof b, "%lX", v);
            if (r.chance(20)) s += string(r.range(1, 24), '0');
            return s + b;
        }
        default: snprintf(b, sizeof b, "$%lX", v);
        }
        return b;
    }
    bool reserved(const string &u) { return model::find_mnemonic(u) >= 0 || u == "X" || u == "Y" || u == "A"; }
    string fresh() {
        static const char al[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ", an[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_";
        string s;
        int k = r.below(20);
        serial++;
        if (longstem && r.chance(70)) s = stem + std::to_string(serial);
        else if (k < 8) s = string(1, al[r.below(26)]) + std::to_string(serial);
        else if (k < 10) {            // same djb2 hash for different spellings
            s = stem;
            int bits = serial;
            for (int i = 0; i < 6; i++) { s += (bits & 1) ? "AZ" : "B9"; bits >>= 1; }
            if (serial >= 64) s += std::to_string(serial);
        } else if (k < 11) {
            int len = r.pick(vector<int>{63, 62, 61, 63, 32, 31, 33});
            string t = std::to_string(serial);
            s = string(1, al[r.below(26)]);
            while ((int)(s.size() + t.size()) < len) s += an[r.below(37)];
            s += t;
        } else if (k < 12) {
            s = string(model::mnemonic(r.below(model::NMNEM))) + std::to_string(serial);
        } else if (k < 13) s = string(1, "XYA"[r.below(3)]) + "_" + std::to_string(serial);
        else {
            int len = r.range(1, 12);
            s = string(1, al[r.below(26)]);
            for (int i = 1; i < len; i++) s += an[r.below(37)];
            s += "_" + std::to_string(serial);
        }
        for (auto &p : syms)
            if (p.first == s) return fresh();
        if (reserved(s)) return fresh();
        return s;
    }
    void raw(const string &s) { lines.push_back(s); }
    string comment() {
        static const vector<string> cs_ = {"", " x", " LDA #$FF", " .END", " this: is, (not) code", " \t\ttabs", ";;", " caf\xc3\xa9",
                                           " JMP NOWHERE", "*=$9000", " LABEL = 5"};
        string c = ";" + r.pick(cs_);
        if (longpct && r.chance(longpct)) {
            static const vector<int> L = {100, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 140, 200, 250, 253, 254, 255, 256,
                                          257, 300, 381, 382, 400, 508, 510, 511, 512, 513, 1022, 1023, 1024, 1025, 4093, 4094, 4095, 4096, 4097, 9000};
            int n = r.pick(L);
            static const string fillw = " LDA #$01 NOP JMP ";
            bool code = r.chance(60);
            while ((int)c.size() < n) c += code ? fillw[c.size() % fillw.size()] : 'x';
        }
        return c;
    }
    void line(const string &code) {
        string s;
        if (r.chance(60)) s += ws(r.chance(50) ? 4 : 1);
        s += code;
        if (r.chance(15)) s += ws(1);
        if (r.chance(12) || (longpct && r.chance(longpct))) s += comment();
        raw(s);
    }
    void used_add(long n) {
        used.push_back({pc, pc + n});
        pc += n;
    }
    bool free_range(long a, long n) {
        if (a + n > 0x10000) return false;
        if (overlap) return true;
        for (auto &u : used)
            if (a < u.second && u.first < a + n) return false;
        return true;
    }
    bool room(long n) { return free_range(pc, n); }
    // operand text for a value, as a literal or as a label with that value
    string opnd(long v) {
        if (!syms.empty() && r.chance(25)) {
            for (int i = 0; i < 4; i++) {
                auto &s = syms[r.below((uint32_t)syms.size())];
                if (s.second == v) return cs(s.first);
            }
        }
        return num(v);
    }
    long value8() {
        static const vector<long> v = {0, 1, 0x7f, 0x80, 0xfe, 0xff};
        return r.chance(40) ? r.pick(v) : r.below(256);
    }
    long value16() {
        static const vector<long> v = {0x100, 0x101, 0x1ff, 0x200, 0x7fff, 0x8000, 0xff00, 0xfffe, 0xffff};
        return r.chance(40) ? r.pick(v) : 0x100 + r.below(0xff00);
    }
    string shaped(int m, int mode, const string &op) {
        string s = cs(model::mnemonic(m));
        auto c = [&](const char *p) { return ws(0) + p + ws(0); };
        switch (mode) {
        case model::IMP: return s;
        case model::ACC: return r.chance(50) ? s : s + ws(1) + cs("A");
        case model::IMM: return s + ws(1) + "#" + ws(0) + op;
        case model::ZP: case model::ABS: case model::REL: return s + ws(1) + op;
        case model::ZPX: case model::ABX: return s + ws(1) + op + c(",") + cs("X");
        case model::ZPY: case model::ABY: return s + ws(1) + op + c(",") + cs("Y");
        case model::IND: return s + ws(1) + "(" + ws(0) + op + ws(0) + ")";
        case model::INX: return s + ws(1) + "(" + ws(0) + op + c(",") + cs("X") + ws(0) + ")";
        case model::INY: return s + ws(1) + "(" + ws(0) + op + ws(0) + ")" + c(",") + cs("Y");
        }
        return s;
    }
    long len(int mode) {
        if (mode == model::IMP || mode == model::ACC) return 1;
        if (mode == model::ABS || mode == model::ABX || mode == model::ABY || mode == model::IND) return 3;
        return 2;
    }
    // one instruction without forward references; prefix: label text in front
    bool instr(const string &prefix) {
        for (int tries = 0; tries < 20; tries++) {
            int m = r.below(model::NMNEM), mode = r.below(model::NMODES);
            if (model::opcode(m, mode) < 0) {
                mode = (int)r.below(model::NMODES);
                if (model::opcode(m, mode) < 0) continue;
            }
            long n = len(mode);
            if (!room(n)) {
                n = 1;
                m = model::find_mnemonic("NOP");
                mode = model::IMP;
                if (!room(1)) return false;
            }
            string op;
            if (mode == model::REL) {
                bool done = false;
                if (r.chance(80)) {
                    for (int i = 0; i < 6 && !syms.empty(); i++) {
                        auto &s = syms[r.below((uint32_t)syms.size())];
                        long off = s.second - pc - 2;
                        if (off >= -128 && off <= 127) {
                            op = cs(s.first);
                            done = true;
                            break;
                        }
                    }
                }
                if (!done) op = num(value8());
            } else if (model::is_jump(m)) op = opnd(r.chance(30) ? value8() : value16());
            else if (n == 3) op = symop(false);
            else if (n == 2) op = symop(true);
            line(prefix + shaped(m, mode, op));
            used_add(n);
            return true;
        }
        return false;
    }
    string symop(bool small) {
        if (!syms.empty() && r.chance(35)) {
            for (int i = 0; i < 5; i++) {
                auto &s = syms[r.below((uint32_t)syms.size())];
                if ((s.second <= 0xff) == small) return cs(s.first);
            }
        }
        return num(small ? value8() : value16());
    }
    void deflabel(const string &name) {
        if (pc > 0xffff) return;
        string t = cs(name) + (r.chance(40) ? ":" : "");
        syms.push_back({name, pc});
        if (r.chance(45)) {
            // in front of an instruction that may refer to it
            if (instr(t + ws(1))) return;
        }
        line(t);
    }
    void defconst(const string &name, long v) {
        syms.push_back({name, v});
        switch (r.below(4)) {
        case 0: line(cs(name) + ws(1) + "=" + ws(r.below(2)) + num(v)); break;
        case 1: line(cs(name) + ws(1) + cs(".EQU") + ws(1) + num(v)); break;
        case 2: line(cs(".DEFINE") + ws(1) + cs(name) + ws(1) + num(v)); break;
        default: line(cs(name) + ":" + ws(1) + "=" + ws(1) + num(v));
        }
    }
    void fill(long n) {   // n bytes of code
        while (n > 0) {
            if (n >= 3 && r.chance(60) && room(3)) {
                line(shaped(model::find_mnemonic("LDA"), model::ABS, num(value16())));
                used_add(3);
                n -= 3;
            } else if (n >= 2 && r.chance(60) && room(2)) {
                line(shaped(model::find_mnemonic("ORA"), model::IMM, num(value8())));
                used_add(2);
                n -= 2;
            } else {
                if (!room(1)) return;
                line(cs("NOP"));
                used_add(1);
                n--;
            }
        }
    }
    string branch() {
        static const char *b[] = {"BCC", "BCS", "BEQ", "BMI", "BNE", "BPL", "BVC", "BVS"};
        return b[r.below(8)];
    }
    long dist() {
        static const vector<long> d = {0, 1, 2, 3, 5, 10, 60, 125, 126, 127, 126, 127};
        return r.pick(d);
    }
    // a branch whose target only later turns out to be somewhere near: behind a backward .ORG, or a constant
    void fwd_odd() {
        if (!room(2)) return;
        long from = pc, lo = pc + 2 - 128, hi = pc + 2 + 127;
        string l = fresh();
        long t;
        if (lo <= 0 && r.chance(50)) t = r.below(3);
        else if (hi >= 0xffff && r.chance(50)) t = 0xffff - r.below(3);
        else t = r.chance(40) ? r.pick(vector<long>{lo, lo + 1, hi, hi - 1, pc, pc + 1, pc + 2}) : r.range((int)lo, (int)hi);
        if (t < 0) t = 0;
        if (t > 0xffff) t = 0xffff;
        line(cs(branch()) + ws(1) + cs(l));
        used_add(2);
        int n = r.range(0, 3);
        for (int i = 0; i < n; i++) instr("");
        if (r.chance(50) || !free_range(t, 1)) defconst(l, t);
        else {
            pc = t;
            line(string("*=") + num(t));
            deflabel(l);
            if (r.chance(60)) {
                long c = from + 200;
                if (free_range(c, 12)) pc = c, line(cs(".ORG") + " " + num(c));
            }
        }
    }
    void fwd_branch() {
        if (r.chance(20)) { fwd_odd(); return; }
        long d = dist();
        if (!room(d + 4)) return;
        string l = fresh();
        int n = r.chance(20) ? r.range(2, 4) : 1;
        for (int i = 0; i < n && d - 2 * i >= 0; i++) {
            line(cs(branch()) + ws(1) + cs(l));
            used_add(2);
        }
        long left = d - 2 * (n - 1);
        if (left < 0) left = 0;
        fill(left);
        deflabel(l);
    }
    void back_branch() {
        long d = r.pick(vector<long>{2, 3, 5, 50, 126, 127, 128, 128, 127});
        if (!room(d + 2)) return;
        string l = fresh();
        syms.push_back({l, pc});
        line(cs(l) + (r.chance(50) ? ":" : ""));
        fill(d - 2);
        line(cs(branch()) + ws(1) + cs(l));
        used_add(2);
    }
    void fwd_jump() {
        if (!room(3)) return;
        string l;
        if (!want.empty() && r.chance(40)) l = r.pick(want);
        else {
            l = fresh();
            want.push_back(l);
        }
        int k = r.below(3);
        line(k == 0 ? cs("JMP") + ws(1) + cs(l) : k == 1 ? cs("JSR") + ws(1) + cs(l)
                                                         : cs("JMP") + ws(1) + "(" + ws(0) + cs(l) + ws(0) + ")");
        used_add(3);
    }
    void settle(bool all) {
        while (!want.empty() && (all || r.chance(50))) {
            size_t i = r.below((uint32_t)want.size());
            string l = want[i];
            want.erase(want.begin() + i);
            if (r.chance(25)) defconst(l, r.chance(15) ? (r.chance(60) ? 0 : 0xffff) : r.chance(30) ? value8() : value16());
            else deflabel(l);
        }
    }
    void org() {
        static const vector<long> gaps = {0, 1, 2, 15, 100, 255, 256, 4095, 4096, 4097, 8191, 8192, 20000};
        long to = -1;
        for (int i = 0; i < 10; i++) {
            long c;
            switch (r.below(6)) {
            case 0: c = 0xffff - r.below(40); break;
            case 1: c = r.below(0x100); break;
            case 2: c = pc - (long)r.below(600); break;
            case 3: c = r.below(0x10000); break;
            default: c = pc + r.pick(gaps);
            }
            if (c < 0 || c > 0xffff) continue;
            if (free_range(c, c > 0xfff0 ? 1 : 12)) { to = c; break; }
        }
        if (to < 0) return;
        pc = to;
        if (r.chance(50)) line(cs(".ORG") + ws(1) + num(to));
        else line(string("*") + ws(0) + "=" + ws(0) + num(to));
    }
    void step() {
        int k = r.below(100);
        if (k < 34) { instr(""); return; }
        if (k < 46) { deflabel(fresh()); return; }
        if (k < 56) { defconst(fresh(), r.chance(50) ? value8() : value16()); return; }
        if (k < 64) { fwd_branch(); return; }
        if (k < 68) { back_branch(); return; }
        if (k < 76) { fwd_jump(); return; }
        if (k < 82) { settle(false); return; }
        if (k < 89) { org(); return; }
        if (k < 93) { raw(r.chance(50) ? "" : ws(r.range(0, 5))); return; }
        if (k < 98) { raw(ws(r.below(4)) + comment()); return; }
        if (longpct && r.chance(20)) {
            raw(string(r.pick(vector<int>{126, 127, 128, 130, 254, 255, 256, 300, 4096}), r.chance(50) ? ' ' : '\t') + (r.chance(50) ? "" : cs("NOP")));
            if (lines.back().find_first_not_of(" \t") != string::npos) {
                if (room(1)) used_add(1);
                else lines.pop_back();
            }
        }
    }
    string text(bool crlf, bool finalnl) {
        string s;
        for (size_t i = 0; i < lines.size(); i++) {
            s += lines[i];
            if (i + 1 < lines.size() || finalnl) s += (crlf && lines[i].find(';') == string::npos) ? "\r\n" : "\n";
        }
        return s;
    }
    void body(int steps) {
        stem = string(1, "KQRST"[r.below(5)]);
        if (r.chance(15)) {
            longstem = true;
            static const char an[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_";
            int n = r.chance(50) ? r.range(2, 50) : r.pick(vector<int>{7, 8, 15, 16, 20, 30, 31, 32, 40, 47, 48, 50});
            while ((int)stem.size() < n) stem += an[r.below(37)];
        }
        overlap = r.chance(3);
        casing = r.below(3);
        longpct = r.chance(25) ? r.range(2, 25) : 0;
        spread = r.chance(40) ? 40 : 0;
        if (r.chance(60)) {
            pc = r.pick(vector<long>{0, 0, 0x10, 0x80, 0xf0, 0x200, 0x600, 0x1000, 0x8000, 0xc000, 0xff00, 0xfff0});
            if (pc || r.chance(50)) line(r.chance(50) ? cs(".ORG") + " " + num(pc) : "*=" + num(pc));
        }
        if (st.labels_heavy || r.chance(12)) {
            int n = r.pick(vector<int>{7, 8, 9, 17, 18, 19, 20, 35, 36, 37, 38, 70, 73, 75, 150});
            for (int i = 0; i < n; i++) {
                if (r.chance(60)) defconst(fresh(), r.below(0x10000));
                else deflabel(fresh());
            }
        }
        if (st.refs_heavy || r.chance(12)) {
            int n = r.pick(vector<int>{6, 7, 8, 9, 14, 15, 16, 17, 30, 31, 32, 33, 62, 63, 64, 65, 130});
            for (int i = 0; i < n; i++) {
                fwd_jump();
                if (r.chance(20)) settle(false);
            }
        }
        for (int i = 0; i < steps; i++) step();
        settle(true);
        if (r.chance(30)) instr("");
    }
};

string finish(G &g, bool want_end) {
    Rng &r = g.r;
    bool end = want_end || r.chance(20);
    if (end) {
        g.raw(g.ws(r.below(3)) + g.cs(".END") + (r.chance(30) ? g.ws(1) : "") + (r.chance(20) ? g.comment() : ""));
        if (r.chance(60)) {
            static const vector<string> junk = {"LDA", "@@@", "JMP NOWHERE", "*=$FFFF", "NOP", ".END", "LABELAFTEREND = 77", "$", "garbage !!",
                                                "LDA #$10", ".ORG $10", "BRK", "\x01\x02", "DUP = 1", "DUP = 2"};
            int n = r.range(1, 5);
            for (int i = 0; i < n; i++) g.raw(r.pick(junk));
            if (r.chance(5)) g.raw(string(r.range(5000, 20000), 'z'));
        }
    }
    return g.text(r.chance(15), want_end || r.chance(85));
}
}  // namespace

Style style(Rng &r) {
    Style s;
    s.maxsteps = r.pick(vector<int>{1, 2, 3, 5, 8, 12, 20, 30, 30, 60});
    if (r.chance(3)) {
        s.big = true;
        s.maxsteps = r.pick(vector<int>{300, 700, 1500});
    }
    s.labels_heavy = r.chance(8);
    s.refs_heavy = r.chance(8);
    s.huge = r.below(500) == 0;
    return s;
}

static string drop_line(const string &t, int no) {
    size_t p = 0;
    for (int i = 1; i < no; i++) p = t.find('\n', p) + 1;
    size_t q = t.find('\n', p);
    return t.substr(0, p) + (q == string::npos ? "" : t.substr(q + 1));
}

static string many_lines(Rng &r) {
    static const vector<int> n = {255, 256, 1000, 32766, 32767, 32768, 65534, 65535, 65536, 70000};
    string t;
    int k = r.chance(60) ? r.pick(vector<int>{65535, 65536, 70000}) : r.pick(n);
    bool c = r.chance(30);
    for (int i = 0; i < k; i++) t += c && i % 7 == 0 ? ";\n" : "\n";
    return t;
}
// code filling the address space, or even more of it laid over itself
static string much_code(Rng &r) {
    string t = r.chance(50) ? "" : r.chance(50) ? ".ORG 0\n" : "*=$0\n";
    bool twice = r.chance(40);
    long end = r.pick(vector<long>{0x10000, 0x10000, 0xffff, 0x8000, 0x8001, 0x7fff});
    char b[40];
    long pc = 0;
    bool ref = !twice && r.chance(60);
    if (ref) { t += " JMP LAST\n"; pc += 3; }
    for (int round = 0; round <= (twice ? 1 : 0); round++) {
        while (pc < end) {
            if (ref && pc == end - 1) t += "LAST";
            if (end - pc >= 3 + (ref ? 1 : 0)) {
                snprintf(b, sizeof b, " LDA $%lX\n", 0x100 + (pc * 7 + round) % 0xff00);
                pc += 3;
            } else {
                snprintf(b, sizeof b, r.chance(50) ? " NOP\n" : " CLC\n");
                pc++;
            }
            t += b;
        }
        if (twice && !round) {
            end = r.pick(vector<long>{1, 3, 1000, 0x8000, 0xfffd});
            t += "*=$0\n";
            pc = 0;
        }
    }
    return t;
}

// more symbols than a short counts, or thousands of places that wait for their label
static string many_names(Rng &r, bool bad) {
    string t = " NOP\n";
    char b[60];
    static const vector<int> n = {127, 128, 255, 256, 257, 1000, 4096, 16384, 32766, 32767, 32768, 32769, 40000, 65535, 65536, 65537, 70000};
    int kind = r.below(3), k = r.pick(n), keep = k;
    const char *fmt = r.chance(50) ? "L%d" : r.chance(50) ? "N%XQ" : "COUNTER_OF_THE_LOOP_%d";
    string name;
    auto nm = [&](int i) { snprintf(b, sizeof b, fmt, i); return string(b); };
    if (kind == 0) {   // symbols; then uses of some of them
        bool consts = r.chance(50);
        for (int i = 0; i < k; i++) t += nm(i) + (consts && i % 3 ? "=" + std::to_string(i & 0xffff) : "") + "\n";
        for (int i : {0, 1, k / 2, 254, 255, 256, 32766, 32767, 32768, 32769, 65534, 65535, 65536, k - 2, k - 1})
            if (i >= 0 && i < k) t += (i & 1 ? " JMP " : " STA ") + nm(i) + "\n";
    } else if (kind == 1) {   // waiting places, one for each label, or several
        if (k > 16384) k = r.pick(vector<int>{10000, 16384, 20000});
        int per = r.pick(vector<int>{1, 1, 2, 3});
        k = std::min(k, 21000 / per);
        for (int i = 0; i < k * per; i++) t += (i & 1 ? " JMP " : " JSR ") + nm(i % k) + "\n";
        bool back = r.chance(50);
        for (int i = 0; i < k; i++) t += nm(back ? k - 1 - i : i) + "\n";
    } else {   // all wait for one
        if (k > 21000) k = r.pick(vector<int>{20000, 21000, 21800});
        for (int i = 0; i < k; i++) t += " JMP " + nm(0) + "\n";
        t += nm(0) + ":\n";
    }
    if (bad) {
        if (kind == 0 && r.chance(60)) t += nm(r.chance(50) ? 0 : (int)r.below(keep)) + " = 5\n";   // again
        else t += " JMP " + nm(r.chance(50) ? k : k + (int)r.below(100000)) + "\n";                // nowhere
    }
    return t;
}
static string long_line(Rng &r, bool giant) {
    int n = r.pick(vector<int>{4095, 4096, 4097, 32767, 32768, 65535, 65536, 70000, 131072, 200000});
    if (giant || r.chance(12)) n = r.pick(vector<int>{1 << 20, 9 << 20, 9 << 20});   // also more than a stack holds
    switch (r.below(5)) {
    case 0: return string(n, r.chance(50) ? ' ' : '\t') + "\n";
    case 1: return " NOP" + string(n, ' ') + "; end\n";
    case 2: return " LDA" + string(n, '\t') + "#1\n";
    case 3: return "\t;" + string(n, ';') + "\n";
    default: return " LDX #$0" + string(n, '0') + "1\n";
    }
}
string valid(Rng &r, const Style &st, model::Result &res) {
    if (st.huge) {
        string t;
        if (!st.giant && r.chance(30)) t = many_names(r, false);
        else if (!st.giant && r.chance(40)) t = much_code(r);
        else {
            Style s = st;
            s.huge = s.giant = false;
            t = (st.giant || r.chance(35) ? long_line(r, st.giant) : many_lines(r)) + valid(r, s, res);
        }
        res = model::assemble(t);
        if (res.kind == model::OK && (!st.want_end || res.end_offset)) return t;
    }
    for (int outer = 0;; outer++) {
        G g(r);
        g.st = st;
        g.body(r.range(0, st.maxsteps));
        string t = finish(g, st.want_end);
        for (int i = 0; i < 40; i++) {
            res = model::assemble(t);
            if (res.kind == model::OK) return t;
            if (res.kind == model::UNSPEC || res.lines.empty()) break;
            for (size_t k = res.lines.size(); k-- > 0;) t = drop_line(t, res.lines[k]);
        }
        if (outer > 20) {
            t = "NOP\n.END\n";
            res = model::assemble(t);
            return t;
        }
    }
}

// one line that is wrong in itself or in its place; "" when not applicable here
static string bad_line(G &g) {
    Rng &r = g.r;
    string pad = r.chance(8) ? string(r.pick(vector<int>{30, 60, 63, 64, 100, 120, 126, 127, 128, 200, 300}), r.chance(70) ? ' ' : '\t') : "";
    switch (r.below(30)) {
    case 0: return pad + r.pick(vector<string>{"@", "LDA @", "LDA #$10!", "LDA $10+1", "LDA #'A'", "\"", "LABEL-1", "_X", "LDA #-1", "JMP LAB?", "LDA /3", "A:B", "NOP :", "LDA [$10]"});
    case 1: return pad + r.pick(vector<string>{"LDA #$1G", "LDA #%12", "LDA #%2", "LDA 12F", "LDA #$XY", "LDA 1A", "LDA #$", "LDA #%", "LDA $,X", "LDX #$12H4"});
    case 2: return pad + "LDA " + r.pick(vector<string>{"65536", "$10000", "%10000000000000000", "99999", "$FFFFF", "123456789", "$100000000", "4294967297", "$FFFFFFFFFFFFFFFF",
                                                         "18446744073709551615"});
    case 3: return pad + "LDA " + r.pick(vector<string>{"$10000000000000001", "$100000000000000000000000000000010", "18446744073709551617", "18446744073709551616",
                                                         "%10000000000000000000000000000000000000000000000000000000000000001", "$1000000000000FFFF0000000000000010"});
    case 4: {
        int n = r.pick(vector<int>{64, 65, 66, 80, 127, 128, 200});
        string l(n, 'L');
        return r.chance(50) ? l : r.chance(50) ? "JMP " + l : l + ": NOP";
    }
    case 5: return pad + r.pick(vector<string>{"LDA ( $10 , X ) ) ) ) )", "LAB9 LDA ( $10 , X ) , Y", "NOP NOP NOP NOP NOP NOP NOP NOP NOP", "LDA ($10,X),Y,X,Y", "# # # # # # # # #",
                                               "L9: LDA ($10,X),Y", "= = = = = = = = = =", "( ( ( ( ( ( ( ( ( ("});
    case 6: return pad + r.pick(vector<string>{".WORD $10", ".BYTE 1", ".", ".ENDX", ".OR $10", ".DEFIN LAB 1", ".ORG2 $10", ".equal $5", ".INCLUDE", "." + string(70, 'A')});
    case 7: return pad + r.pick(vector<string>{"LDA # ", "LDA #,", "LDA $10,", "LDA ($10", "LDA ($10,X", "LDA ($10),", "LDA ($10,Y)", "LDA ($10),X", "LDA ()", "LDA (X)", "LDA ,X", "LDA X",
                                               "LDA Y", "LDA #X", "LDA #A", "ASL A A", "ASL A,X", "NOP #", "LDA $10 $10", "LDA #$10 $10", "LDA #$10,X", "LDA (A)", "LDA ($10)X", "LDA ($10,X)Y"});
    case 8: return pad + r.pick(vector<string>{"LDA $10,X (", "LDA $10,X X", "LDX $10,Y Y", "LDA $1000,Y $5", "LDA $10,X ,", "STA $2000,X #", "LDA $10,Y", "ADC $1234,X )", "LDA $10,X,Y",
                                               "LDA $10,X NOP", "LDX $20,Y = 5"});
    case 9: return pad + r.pick(vector<string>{"= $10", "X = 5", "A: NOP", "Y", "LDA: NOP", "5 NOP", "$10", "( NOP )", "#5", ", X", "LDA = 5", "NOP = 5", ".EQU $5", "LABZ .EQU", "LABZ .EQU LABY",
                                               "LABZ = ", "LABZ = X", "LABZ = $5 $6", "LABZ .ORG $5", "LABZ .END", "LABZ LABQ", "LABZ $10", "LABZ: LABQ: NOP", "LABZ #$10"});
    case 10: return pad + r.pick(vector<string>{"*", "* $1000", "*=", "*= LABZ", "* = $10 $20", "*=*", "* = 5,", "*=$10 NOP", ".ORG", ".ORG = $5", ".ORG LABZ", ".ORG $5 $6", ".ORG #$5", ".END $5", ".END X",
                                                ".END NOP", ".DEFINE", ".DEFINE LABZ", ".DEFINE $5 LABZ", ".DEFINE LABZ = 5", ".DEFINE X 5", ".DEFINE LDA 5", ".DEFINE LABZ $5 $6", ".DEFINE LABZ LABZ"});
    case 11: case 12: {
        if (g.syms.empty()) return "";
        auto &sy = g.syms[r.below((uint32_t)g.syms.size())];   // defined again, also with the value it has
        string s = g.cs(sy.first), v = g.num(r.chance(40) ? sy.second & 0xffff : r.chance(30) ? g.pc & 0xffff : (long)r.below(65536));
        switch (r.below(8)) {
        case 0: return s;
        case 1: return s + ":";
        case 2: return s + " NOP";
        case 3: case 4: return s + (r.chance(20) ? ": = " : " = ") + v;
        case 5: return s + " " + g.cs(".EQU") + " " + v;
        default: return g.cs(".DEFINE") + " " + s + " " + v;
        }
    }
    case 13: return pad + r.pick(vector<string>{"LDA LATERCONST", "LDX #LATERCONST", "STA LATERCONST,X", "ADC (LATERCONST),Y", "LDA (LATERCONST,X)", "INC LATERCONST", "LATERCONST LDA LATERCONST2", "CPX LATERCONST",
                                                "LDX LATERCONST,Y"});
    case 14: case 15: {   // a shape the mnemonic does not have
        for (int i = 0; i < 30; i++) {
            int m = r.below(model::NMNEM), mode = r.below(model::NMODES);
            if (model::opcode(m, mode) >= 0) continue;
            bool big = mode == model::ABS || mode == model::ABX || mode == model::ABY || mode == model::IND;
            return pad + g.shaped(m, mode, g.num(big ? g.value16() : g.value8()));
        }
        return "";
    }
    case 16: return pad + r.pick(vector<string>{"LDA #$100", "LDA #256", "CPX #$FFFF", "LDA ($100,X)", "LDA ($1234),Y", "LDY #65535", "SBC #%100000000", "STX $1234,Y", "STY $1234,X", "LDX $10,X", "STX $20,X",
                                                "LDY $20,Y", "LDA $20,Y", "ADC $FF,Y", "BIT $10,X", "BIT #$10", "JSR ($1000)", "JMP $1000,X", "JMP #$10", "JSR $10,X", "JMP ($10,X)", "JMP ($10),Y", "STA #$10", "INC A",
                                                "DEC A", "LDA A", "NOP A", "NOP $10", "TAX $10", "RTS #1", "LDA", "JMP", "BNE", "STA", "CPX", "BIT", "INC", "BRK #0"});
    case 17: return pad + r.pick(vector<string>{"BNE $100", "BEQ $1234", "BCC 256", "BPL $FFFF", "BMI $0180", "BVS 65535", "BNE #$10", "BEQ ($10)", "BNE $10,X", "BCC ($10),Y", "BNE A"});
    case 18: {   // backward branch too far
        string s;
        for (auto &p : g.syms) {
            long off = p.second - g.pc - 2;
            if (off < -128 || off > 127) s = p.first;
            if (!s.empty() && r.chance(30)) break;
        }
        return s.empty() ? "" : g.branch() + " " + s;
    }
    case 19: return "\x01 far";    // expanded by the caller: forward branch one too far
    case 20: return r.pick(vector<string>{"JMP NEVERDEFINED", "JSR NEVERDEFINED", "BNE NEVERDEFINED", "JMP (NEVERDEFINED)", "BCS NEVERDEFINED", "NEVER1: JMP NEVERDEFINED", "\tJMP\tNEVERDEFINED\t; gone"});
    case 21: return "\x01 past";   // code past $FFFF
    case 22: return r.pick(vector<string>{"JMP LATERLAB,X", "JMP LATERLAB,Y", "JSR LATERLAB,X", "JSR (LATERLAB)", "JMP (LATERLAB,X)", "JMP (LATERLAB),Y", "BNE LATERLAB,X", "BNE (LATERLAB)", "BNE #LATERLAB",
                                          "JMP #LATERLAB", "JSR #LATERLAB"});
    case 23: {   // a valid line damaged
        if (g.lines.empty()) return "";
        string s = g.lines[r.below((uint32_t)g.lines.size())];
        if (s.empty() || s.size() > 200) return "";
        int n = r.range(1, 2);
        for (int i = 0; i < n && !s.empty(); i++) {
            size_t at = r.below((uint32_t)s.size());
            static const string cs = " \t,()#=*$%.:;XYA09LF_@";
            if (r.chance(40)) s.erase(at, r.range(1, 3));
            else if (r.chance(50)) s.insert(at, 1, cs[r.below((uint32_t)cs.size())]);
            else s[at] = cs[r.below((uint32_t)cs.size())];
        }
        return s;
    }
    case 24: return "L" + string(r.range(1, 10), 'Q') + " " + string(r.range(1, 200), '\t') + "LDA @";
    case 25: return "NOP " + string(r.range(90, 300), ' ') + "$";
    case 26: return string(r.range(1, 40), '\t') + "LDA\t(\t$10\t,\tY\t)\t; " + string(r.range(0, 200), 'c');
    case 27: return "LDA @ ; " + string(r.pick(vector<int>{90, 110, 117, 118, 119, 120, 121, 130, 250, 300, 5000}), 'c');
    case 28: return "LDA @" + string(r.range(1, 150), r.chance(50) ? ' ' : '\t');
    default: return "LDA " + string("$") + string(r.range(5, 40), "123456789ABCDEF"[r.below(15)]);
    }
}

string invalid(Rng &r, const Style &st, model::Result &res) {
    if (st.huge || r.permille(5)) {
        Style s = st;
        s.huge = false;
        string t;
        if (st.huge && r.chance(30)) t = many_names(r, true);
        else if (st.huge && r.chance(50)) t = many_lines(r) + invalid(r, s, res);
        else if (st.huge) {   // a pending reference far behind or far before its line's end
            string ref = r.pick(vector<string>{" JMP NOWHERE\n", " LDA NOWHERE,X\n", "HERE BNE NOWHERE\n", " BEQ FARAWAY\n", "\tJSR\tNOWHERE ; here\n"});
            t = r.chance(30) ? ref + many_lines(r) : many_lines(r) + ref + (r.chance(40) ? many_lines(r) : "");
            if (ref.find("FARAWAY") != string::npos) t += "*=$1000\nFARAWAY NOP\n";
        }
        else {   // many labels that are defined nowhere
            int n = r.pick(vector<int>{2, 3, 16, 127, 128, 255, 256, 256, 257, 512});
            for (int i = 0; i < n; i++) t += " JMP MISSING" + std::to_string(r.chance(20) ? 0 : i) + (i == n / 2 ? " ; half\n" : "\n");
        }
        res = model::assemble(t);
        if (res.kind == model::ERR) return t;
    }
    for (int outer = 0; outer < 50; outer++) {
        G g(r);
        g.st = st;
        g.stem = "K";
        int steps = r.range(0, st.maxsteps > 12 ? 12 : st.maxsteps);
        g.casing = r.below(3);
        g.longpct = r.chance(20) ? 10 : 0;
        bool bodyful = r.chance(25);
        if (bodyful) g.body(r.range(0, st.maxsteps));
        else for (int i = 0; i < steps; i++) g.step();
        int nbad = r.chance(10) ? 2 : 1;
        for (int b = 0; b < nbad; b++) {
            string s = bad_line(g);
            if (s.empty()) continue;
            if (s == "\x01 far") {
                long d = r.pick(vector<long>{128, 129, 130, 200, 300});
                string l = g.fresh();
                g.line(g.cs(g.branch()) + " " + l);
                g.used_add(2);
                g.fill(d);
                g.deflabel(l);
            } else if (s == "\x01 past") {
                long a = 0xffff - r.below(3);
                g.line(".ORG " + g.num(a));
                g.pc = a;
                for (int i = 0; i < 4; i++) g.line(g.cs(r.pick(vector<string>{"LDA #1", "LDA $1234", "NOP", "JMP $1234", "JMP LATERLAB", "BNE LATERLAB"})));
                g.pc = 0x2000;
                g.line("*=$2000");
            } else if (s.find("LATER") != string::npos) {
                g.raw(r.chance(30) ? "\t" + s : s);
                int k = r.below(3);
                for (int i = 0; i < k; i++) g.step();
                if (r.chance(90)) {
                    size_t p = s.find("LATER");
                    size_t q = p;
                    while (q < s.size() && ((s[q] >= 'A' && s[q] <= 'Z') || (s[q] >= '0' && s[q] <= '9'))) q++;
                    string l = s.substr(p, q - p);
                    if (l == "LATERCONST") g.line("LATERCONST = $40");
                    else g.line(l + ":");
                }
            } else g.raw(s);
            if (r.chance(15)) g.lines.back() += g.comment();
        }
        int tail = r.below(6);
        for (int i = 0; i < tail; i++) g.step();
        if (r.chance(80)) g.settle(true);
        string t = g.text(r.chance(10), r.chance(85));
        res = model::assemble(t);
        if (res.kind == model::ERR) return t;
    }
    string t = "NOP\n LDA @\n";
    res = model::assemble(t);
    return t;
}

string bytes(Rng &r) {
    model::Result res;
    Style st = style(r);
    if (st.maxsteps > 30) st.maxsteps = 30;
    st.huge = false;
    string t;
    int k = r.below(10);
    if (k < 4) t = valid(r, st, res);
    else if (k < 8) t = invalid(r, st, res);
    else {
        int n = r.pick(vector<int>{0, 1, 2, 10, 100, 127, 128, 129, 1000, 5000});
        static const string cs = " \t\n\n\r;,()#=*$%.:XYAL09_@ab";
        bool any = r.chance(30);
        for (int i = 0; i < n; i++) t += any ? (char)r.below(256) : cs[r.below((uint32_t)cs.size())];
        return t;
    }
    int muts = r.pick(vector<int>{0, 1, 1, 2, 3, 5, 10});
    for (int i = 0; i < muts; i++) {
        size_t at = r.below((uint32_t)t.size() + 1);
        switch (r.below(9)) {
        case 0: t.insert(at, 1, (char)r.below(256)); break;
        case 1: if (at < t.size()) t[at] = (char)r.below(256); break;
        case 2: if (at < t.size()) t.erase(at, r.range(1, 10)); break;
        case 3: {
            static const vector<int> L = {8, 9, 60, 62, 63, 64, 65, 66, 100, 120, 125, 126, 127, 128, 129, 130, 191, 192, 193, 254, 255, 256, 257, 512, 1000, 5000};
            static const string cs = "A0$%;., \t(:#=_\xff\x80";
            t.insert(at, string(r.pick(L), cs[r.below((uint32_t)cs.size())]));
            break;
        }
        case 4: t.insert(at, r.pick(vector<string>{"\n", "\r", "\r\n", string(1, '\0'), "\xff", ";", ":", "\n\n", "\t\n", " \n", ".END\n", "\nJMP Q\n", "\nQ:\n", "$", "%", "#", "=", "*=$FFFF\n", "\x80"})); break;
        case 5: {
            static const vector<int> L = {62, 63, 64, 65, 126, 127, 128, 200};
            t.insert(at, "\n" + string(r.pick(L), "LZ_9"[r.below(2)]) + r.pick(vector<string>{"", ":", " = 5", " NOP", ": JMP FFF"}) + "\n");
            break;
        }
        case 6: t.insert(at, "\n." + string(r.pick(vector<int>{61, 62, 63, 64, 65, 130}), 'D') + "\n"); break;
        case 7: t.resize(at); break;
        default: {   // odd last line: only blanks, no line end
            t += r.pick(vector<string>{" ", "\t\t", "JMP Q", "JMP Q ", " JMP Q\t", "BNE Q;", "@", "@ ", " @\t", "LDA", "\r", string(1, '\0')});
        }
        }
    }
    return t;
}

}  // namespace gen
