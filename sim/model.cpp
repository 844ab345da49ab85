#include "model.h"
#include <cstring>
#include <map>

namespace model {

// per mnemonic: opcode by mode, in hex, "--" where the mode does not exist
//                      IMP ACC IMM ZP  ZPX ZPY ABS ABX ABY IND INX INY REL
static const char *const TAB[] = {
    "ADC -- -- 69 65 75 -- 6D 7D 79 -- 61 71 --", "AND -- -- 29 25 35 -- 2D 3D 39 -- 21 31 --",
    "ASL -- 0A -- 06 16 -- 0E 1E -- -- -- -- --", "BCC -- -- -- -- -- -- -- -- -- -- -- -- 90",
    "BCS -- -- -- -- -- -- -- -- -- -- -- -- B0", "BEQ -- -- -- -- -- -- -- -- -- -- -- -- F0",
    "BIT -- -- -- 24 -- -- 2C -- -- -- -- -- --", "BMI -- -- -- -- -- -- -- -- -- -- -- -- 30",
    "BNE -- -- -- -- -- -- -- -- -- -- -- -- D0", "BPL -- -- -- -- -- -- -- -- -- -- -- -- 10",
    "BRK 00 -- -- -- -- -- -- -- -- -- -- -- --", "BVC -- -- -- -- -- -- -- -- -- -- -- -- 50",
    "BVS -- -- -- -- -- -- -- -- -- -- -- -- 70", "CLC 18 -- -- -- -- -- -- -- -- -- -- -- --",
    "CLD D8 -- -- -- -- -- -- -- -- -- -- -- --", "CLI 58 -- -- -- -- -- -- -- -- -- -- -- --",
    "CLV B8 -- -- -- -- -- -- -- -- -- -- -- --", "CMP -- -- C9 C5 D5 -- CD DD D9 -- C1 D1 --",
    "CPX -- -- E0 E4 -- -- EC -- -- -- -- -- --", "CPY -- -- C0 C4 -- -- CC -- -- -- -- -- --",
    "DEC -- -- -- C6 D6 -- CE DE -- -- -- -- --", "DEX CA -- -- -- -- -- -- -- -- -- -- -- --",
    "DEY 88 -- -- -- -- -- -- -- -- -- -- -- --", "EOR -- -- 49 45 55 -- 4D 5D 59 -- 41 51 --",
    "INC -- -- -- E6 F6 -- EE FE -- -- -- -- --", "INX E8 -- -- -- -- -- -- -- -- -- -- -- --",
    "INY C8 -- -- -- -- -- -- -- -- -- -- -- --", "JMP -- -- -- -- -- -- 4C -- -- 6C -- -- --",
    "JSR -- -- -- -- -- -- 20 -- -- -- -- -- --", "LDA -- -- A9 A5 B5 -- AD BD B9 -- A1 B1 --",
    "LDX -- -- A2 A6 -- B6 AE -- BE -- -- -- --", "LDY -- -- A0 A4 B4 -- AC BC -- -- -- -- --",
    "LSR -- 4A -- 46 56 -- 4E 5E -- -- -- -- --", "NOP EA -- -- -- -- -- -- -- -- -- -- -- --",
    "ORA -- -- 09 05 15 -- 0D 1D 19 -- 01 11 --", "PHA 48 -- -- -- -- -- -- -- -- -- -- -- --",
    "PHP 08 -- -- -- -- -- -- -- -- -- -- -- --", "PLA 68 -- -- -- -- -- -- -- -- -- -- -- --",
    "PLP 28 -- -- -- -- -- -- -- -- -- -- -- --", "ROL -- 2A -- 26 36 -- 2E 3E -- -- -- -- --",
    "ROR -- 6A -- 66 76 -- 6E 7E -- -- -- -- --", "RTI 40 -- -- -- -- -- -- -- -- -- -- -- --",
    "RTS 60 -- -- -- -- -- -- -- -- -- -- -- --", "SBC -- -- E9 E5 F5 -- ED FD F9 -- E1 F1 --",
    "SEC 38 -- -- -- -- -- -- -- -- -- -- -- --", "SED F8 -- -- -- -- -- -- -- -- -- -- -- --",
    "SEI 78 -- -- -- -- -- -- -- -- -- -- -- --", "STA -- -- -- 85 95 -- 8D 9D 99 -- 81 91 --",
    "STX -- -- -- 86 -- 96 8E -- -- -- -- -- --", "STY -- -- -- 84 94 -- 8C -- -- -- -- -- --",
    "TAX AA -- -- -- -- -- -- -- -- -- -- -- --", "TAY A8 -- -- -- -- -- -- -- -- -- -- -- --",
    "TSX BA -- -- -- -- -- -- -- -- -- -- -- --", "TXA 8A -- -- -- -- -- -- -- -- -- -- -- --",
    "TXS 9A -- -- -- -- -- -- -- -- -- -- -- --", "TYA 98 -- -- -- -- -- -- -- -- -- -- -- --"};
const int NMNEM = (int)(sizeof TAB / sizeof *TAB);

static int hexv(char c) {
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'A' && c <= 'F') return c - 'A' + 10;
    if (c >= 'a' && c <= 'f') return c - 'a' + 10;
    return -1;
}
const char *mnemonic(int i) {
    static char b[4];
    memcpy(b, TAB[i], 3);
    b[3] = 0;
    return b;
}
int opcode(int m, int mode) {
    const char *p = TAB[m] + 4 + 3 * mode;
    return p[0] == '-' ? -1 : hexv(p[0]) * 16 + hexv(p[1]);
}
int find_mnemonic(const std::string &u) {
    if (u.size() != 3) return -1;
    for (int i = 0; i < NMNEM; i++)
        if (!memcmp(TAB[i], u.data(), 3)) return i;
    return -1;
}
bool is_branch(int m) { return opcode(m, REL) >= 0; }
bool is_jump(int m) { return opcode(m, ABS) >= 0 && opcode(m, ZP) < 0; }

struct Tok {
    enum T { WORD, MNEM, REG, NUM, PUNCT, DIR } t;
    std::string s;   // upper-cased
    int v = 0;
};
struct Fail {
    std::string why;
    bool unspec = false;
};

static bool alpha(unsigned char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static bool digit(unsigned char c) { return c >= '0' && c <= '9'; }
static bool tokend(char c) { return c == ' ' || c == '\t' || c == ',' || c == '(' || c == ')'; }

static std::vector<Tok> tokens(const std::string &code) {
    std::vector<Tok> r;
    size_t i = 0, n = code.size();
    while (true) {
        while (i < n && (code[i] == ' ' || code[i] == '\t')) i++;
        if (i == n) break;
        char c = code[i];
        Tok t;
        if (strchr("#(),=*", c)) {
            t.t = Tok::PUNCT;
            t.s = std::string(1, c);
            i++;
        } else if (alpha(c)) {
            size_t j = i;
            while (j < n && (alpha(code[j]) || digit(code[j]) || code[j] == '_')) j++;
            if (j - i >= 64) throw Fail{"label too long"};
            if (j < n && !tokend(code[j]) && code[j] != ':') throw Fail{"illegal character in word"};
            for (size_t k = i; k < j; k++) t.s += (char)(code[k] >= 'a' && code[k] <= 'z' ? code[k] - 32 : code[k]);
            if (t.s == "X" || t.s == "Y" || t.s == "A") t.t = Tok::REG;
            else {
                t.v = find_mnemonic(t.s);
                t.t = t.v >= 0 ? Tok::MNEM : Tok::WORD;
            }
            i = j;
        } else if (c == '$' || c == '%' || digit(c)) {
            int base = c == '$' ? 16 : c == '%' ? 2 : 10;
            size_t j = i + (base != 10);
            long v = 0;
            size_t first = j;
            while (j < n) {
                int d = hexv(code[j]);
                if (d < 0 || d >= base) break;
                v = v * base + d;
                if (v > 70000) v = 70000;
                j++;
            }
            if (j == first) throw Fail{"no digits"};
            if (j < n && !tokend(code[j])) throw Fail{"bad digit"};
            if (v > 65535) throw Fail{"literal too big"};
            t.t = Tok::NUM;
            t.v = (int)v;
            i = j;
        } else if (c == '.') {
            size_t j = i + 1;
            t.s = ".";
            while (j < n && alpha(code[j])) {
                t.s += (char)(code[j] >= 'a' ? code[j] - 32 : code[j]);
                j++;
            }
            if (j < n && !tokend(code[j])) throw Fail{"bad directive"};
            if (t.s != ".DEFINE" && t.s != ".EQU" && t.s != ".ORG" && t.s != ".END") throw Fail{"unknown directive"};
            t.t = Tok::DIR;
            i = j;
        } else throw Fail{"illegal character"};
        r.push_back(t);
        if (r.size() > 8) throw Fail{"too many tokens"};
        if (i < n && code[i] == ':') {
            if (r.size() == 1 && t.t == Tok::WORD) i++;
            else throw Fail{"stray colon"};
        }
    }
    return r;
}

namespace {
struct Ref { int line, pc, mnem, mode; std::string label; };
struct Asm {
    Result R;
    std::map<std::string, long> sym;
    std::vector<Ref> refs;
    std::vector<int> owner;   // per address: 0 none, 1 plain, 2 forward reference
    long pc = 0, top = 0;
    bool overlap_ref = false, overlap = false;

    void define(const std::string &l, long v, bool addr) {
        if (sym.count(l)) throw Fail{"redefinition"};
        if (addr && v > 0xFFFF) throw Fail{"label past the address space", true};
        sym[l] = v;
        R.nsyms++;
    }
    void emit(const std::vector<int> &b, bool ref) {
        if (pc + (long)b.size() > 0x10000) throw Fail{"code past the address space"};
        for (size_t i = 0; i < b.size(); i++) {
            long a = pc + (long)i;
            if (owner[a]) overlap = true;
            if (owner[a] && (ref || owner[a] == 2)) overlap_ref = true;
            owner[a] = ref ? 2 : 1;
            R.image[a] = (char)b[i];
        }
        pc += (long)b.size();
        if (pc > top) top = pc;
        R.nbytes += (long)b.size();
        R.ninstr++;
    }
    void instr(const std::vector<Tok> &t, size_t k, int line) {
        int m = t[k].v;
        k++;
        size_t n = t.size() - k;
        auto P = [&](size_t i, const char *s) { return k + i < t.size() && t[k + i].t == Tok::PUNCT && t[k + i].s == s; };
        auto G = [&](size_t i, const char *s) { return k + i < t.size() && t[k + i].t == Tok::REG && t[k + i].s == s; };
        auto O = [&](size_t i) { return k + i < t.size() && (t[k + i].t == Tok::WORD || t[k + i].t == Tok::NUM); };
        // shapes: 0 none, 1 acc, 2 imm, 3 op, 4 op,X 5 op,Y 6 (op,X) 7 (op),Y 8 (op)
        int shape = -1;
        const Tok *op = nullptr;
        if (n == 0) shape = 0;
        else if (n == 1 && G(0, "A")) shape = 1;
        else if (n == 2 && P(0, "#") && O(1)) { shape = 2; op = &t[k + 1]; }
        else if (n == 1 && O(0)) { shape = 3; op = &t[k]; }
        else if (n == 3 && O(0) && P(1, ",") && G(2, "X")) { shape = 4; op = &t[k]; }
        else if (n == 3 && O(0) && P(1, ",") && G(2, "Y")) { shape = 5; op = &t[k]; }
        else if (n == 5 && P(0, "(") && O(1) && P(2, ",") && G(3, "X") && P(4, ")")) { shape = 6; op = &t[k + 1]; }
        else if (n == 5 && P(0, "(") && O(1) && P(2, ")") && P(3, ",") && G(4, "Y")) { shape = 7; op = &t[k + 1]; }
        else if (n == 3 && P(0, "(") && O(1) && P(2, ")")) { shape = 8; op = &t[k + 1]; }
        if (shape < 0) throw Fail{"syntax"};
        pending_label();
        bool br = is_branch(m), jp = is_jump(m);
        if (shape == 0) {
            int oc = opcode(m, IMP);
            if (oc < 0 && opcode(m, ACC) >= 0) oc = opcode(m, ACC);
            if (oc < 0) throw Fail{"operand missing"};
            emit({oc}, false);
            return;
        }
        if (shape == 1) {
            int oc = opcode(m, ACC);
            if (oc < 0) throw Fail{"no accumulator mode"};
            emit({oc}, false);
            return;
        }
        bool fwd = false, lab = op->t == Tok::WORD;
        long v = op->v;
        if (lab) {
            auto it = sym.find(op->s);
            if (it != sym.end()) v = it->second;
            else if (br || jp) fwd = true;
            else throw Fail{"forward reference not allowed"};
        }
        int mode;
        if (br) {
            if (shape != 3) throw Fail{"branch mode"};
            mode = REL;
        } else if (jp) {
            if (shape == 3) mode = ABS;
            else if (shape == 8) mode = IND;
            else throw Fail{"jump mode"};
            if (opcode(m, mode) < 0) throw Fail{"jump mode"};
        } else {
            bool z = v <= 0xFF;
            static const int zm[] = {0, 0, IMM, ZP, ZPX, ZPY, INX, INY, -1};
            static const int am[] = {0, 0, -1, ABS, ABX, ABY, -1, -1, IND};
            mode = z ? zm[shape] : am[shape];
            if (mode < 0 || opcode(m, mode) < 0) throw Fail{"addressing mode"};
        }
        int oc = opcode(m, mode);
        if (fwd) {
            refs.push_back(Ref{line, (int)pc, m, mode, op->s});
            R.nrefs++;
            if (br) emit({oc, 0}, true);
            else emit({oc, 0, 0}, true);
            return;
        }
        if (br) {
            if (lab) {
                long off = v - pc - 2;
                if (off < -128 || off > 127) throw Fail{"branch too far"};
                emit({oc, (int)(off & 0xff)}, false);
            } else {
                if (v > 0xFF) throw Fail{"branch offset too big"};
                emit({oc, (int)v}, false);
            }
            return;
        }
        if (mode == ABS || mode == ABX || mode == ABY || mode == IND) emit({oc, (int)(v & 0xff), (int)(v >> 8)}, false);
        else emit({oc, (int)v}, false);
    }
    std::string plabel;
    bool have_plabel = false;
    // the label in front of an instruction is defined before its operand is looked at
    void pending_label() {
        if (!have_plabel) return;
        have_plabel = false;
        define(plabel, pc, true);
    }
    bool line(const std::string &code, int no) {
        std::vector<Tok> t = tokens(code);
        have_plabel = false;
        if (t.empty()) return true;
        size_t n = t.size();
        const Tok &f = t[0];
        if (f.t == Tok::MNEM) {
            instr(t, 0, no);
            return true;
        }
        if (f.t == Tok::WORD) {
            if (n == 1) {
                define(f.s, pc, true);
                return true;
            }
            if (t[1].t == Tok::MNEM) {
                plabel = f.s;
                have_plabel = true;
                instr(t, 1, no);
                return true;
            }
            if (n == 3 && ((t[1].t == Tok::PUNCT && t[1].s == "=") || (t[1].t == Tok::DIR && t[1].s == ".EQU")) &&
                t[2].t == Tok::NUM) {
                define(f.s, t[2].v, false);
                return true;
            }
            throw Fail{"syntax"};
        }
        if (f.t == Tok::DIR) {
            if (f.s == ".DEFINE" && n == 3 && t[1].t == Tok::WORD && t[2].t == Tok::NUM) {
                define(t[1].s, t[2].v, false);
                return true;
            }
            if (f.s == ".ORG" && n == 2 && t[1].t == Tok::NUM) {
                pc = t[1].v;
                return true;
            }
            if (f.s == ".END" && n == 1) return false;
            throw Fail{"syntax"};
        }
        if (f.t == Tok::PUNCT && f.s == "*" && n == 3 && t[1].t == Tok::PUNCT && t[1].s == "=" && t[2].t == Tok::NUM) {
            pc = t[2].v;
            return true;
        }
        throw Fail{"syntax"};
    }
};
}  // namespace

Result assemble(const std::string &src) {
    Asm A;
    A.R.image.assign(0x10000, '\0');
    A.owner.assign(0x10000, 0);
    std::vector<std::string> all;
    size_t p = 0;
    int no = 0;
    while (p < src.size()) {
        size_t q = src.find('\n', p);
        bool nl = q != std::string::npos;
        std::string full = src.substr(p, nl ? q - p : std::string::npos);
        no++;
        all.push_back(full);
        std::string code = full;
        size_t semi = code.find(';');
        if (semi != std::string::npos) code.resize(semi);
        size_t cr = code.find('\r');
        bool odd = false;
        if (cr != std::string::npos) {
            if (semi != std::string::npos ? false : cr + 1 < code.size()) odd = true;
            if (semi != std::string::npos) odd = true;
            code.resize(cr);
        }
        if (code.find('\0') != std::string::npos || code.find('\xff') != std::string::npos) odd = true;
        if (odd) {
            A.R.kind = UNSPEC;
            return A.R;
        }
        try {
            if (!A.line(code, no)) {
                if (nl) A.R.end_offset = q + 1;
                break;
            }
        } catch (Fail &f) {
            A.R.kind = f.unspec ? UNSPEC : ERR;
            A.R.why = f.why;
            if (nl) A.R.err_offset = q + 1;
            A.R.lines.push_back(no);
            A.R.texts.push_back(full);
            for (auto &r : A.refs) {   // wrong too, and known by now
                auto it = A.sym.find(r.label);
                if (r.mode != REL || it == A.sym.end()) continue;
                long off = it->second - r.pc - 2;
                if (off >= -128 && off <= 127) continue;
                A.R.lines.push_back(r.line);
                A.R.texts.push_back(all[r.line - 1]);
            }
            return A.R;
        }
        if (!nl) break;
        p = q + 1;
    }
    A.R.nlines = no;
    if (A.overlap_ref) {
        A.R.kind = UNSPEC;
        return A.R;
    }
    for (auto &r : A.refs) {
        auto it = A.sym.find(r.label);
        std::string why;
        if (it == A.sym.end()) why = "label never defined";
        else if (r.mode == REL) {
            long off = it->second - r.pc - 2;
            if (off < -128 || off > 127) why = "forward branch too far";
            else A.R.image[r.pc + 1] = (char)(off & 0xff);
        } else {
            A.R.image[r.pc + 1] = (char)(it->second & 0xff);
            A.R.image[r.pc + 2] = (char)(it->second >> 8);
        }
        if (!why.empty()) {
            A.R.kind = ERR;
            A.R.why = why;
            A.R.lines.push_back(r.line);
            A.R.texts.push_back(all[r.line - 1]);
        }
    }
    A.R.image.resize(A.top);
    return A.R;
}

}  // namespace model
