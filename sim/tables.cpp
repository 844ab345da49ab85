// C11: the label table and the list of pending references, driven through their own interfaces under
// injected allocation failures, against a map and a vector.
#include "kernel.h"
#include "kernel_int.h"
#include <cstring>
#include <map>
#include <string>
#include <vector>

#ifdef NO_TABLES
namespace sim {
extern const bool tables_known = false;
int tables_main(int, char **) { return 0; }
}
#else
extern "C" {
#include "error.h"
#include "forward_reference.h"
#include "lexer.h"
#include "opcode.h"
#include "parser.h"
#include "symbol_table.h"
}

namespace sim {
extern const bool tables_known = true;

static std::string label_of(int k) {
    // spellings that share hash values, and plain ones
    if (k % 3 == 0) {
        std::string s = "K";
        for (int i = 0; i < 9; i++) s += (k >> i) & 1 ? "AZ" : "B9";
        return s;
    }
    if (k % 7 == 0) return std::string(55, 'L') + std::to_string(k);
    return "L" + std::to_string(k);
}

struct RefModel { std::string label, line; int pc, line_num, status; Mnemonic m; int flag; size_t off; };

int tables_main(int argc, char **argv) {
    std::string script = argc > 1 ? argv[1] : "";
    driver_alloc_faults(true);
    SymbolTable *st = init_symbol_table();
    if (!st) return 1;
    Unresolved *un = init_unresolved();
    if (!un) {
        destroy_symbol_table(st);
        return 1;
    }
    std::map<std::string, int> m;
    std::vector<RefModel> rv;
    auto faults = [] { return cur->rec->hard_by_op[OP_ALLOC]; };
    auto bad = [](const std::string &s) { driver_fail(s); };
    auto verify = [&](const char *when) {
        for (auto &e : m) {
            int v = search_symbol(st, e.first.c_str());
            if (v != e.second) {
                bad(std::string(when) + ": label " + e.first + " yields " + std::to_string(v) + " instead of " + std::to_string(e.second));
                return false;
            }
        }
        if (st->count != (int)m.size()) {
            bad(std::string(when) + ": label count is " + std::to_string(st->count) + ", recorded " + std::to_string(m.size()));
            return false;
        }
        for (int k = 0; k < 8; k++) {
            std::string u = "U" + std::to_string(k) + "_UNKNOWN";
            if (search_symbol(st, u.c_str()) != ERROR_SYMBOL_NOT_FOUND) {
                bad(std::string(when) + ": unknown label is found");
                return false;
            }
        }
        if (!un->refs || un->curr != (int)rv.size()) {
            bad(std::string(when) + ": pending references: " + std::to_string(un->refs ? un->curr : -1) + " listed, recorded " + std::to_string(rv.size()));
            return false;
        }
        for (size_t i = 0; i < rv.size(); i++) {
            ForwardRef *r = un->refs[i];
            RefModel &x = rv[i];
            if (!r || !r->label || !r->source_line || !r->instr || x.label != r->label || x.line != r->source_line || r->pc != x.pc || r->line_num != x.line_num ||
                r->operand_status != x.status || r->instr->mnemonic != x.m || r->instr->addr_bitflag != x.flag || r->operand_location != r->source_line + x.off) {
                bad(std::string(when) + ": pending reference " + std::to_string(i) + " changed");
                return false;
            }
        }
        return true;
    };
    size_t i = 0;
    int seq = 0;
    bool fine = true;
    while (i < script.size() && fine) {
        char op = script[i++];
        int k = atoi(script.c_str() + i);
        while (i < script.size() && script[i] != ';') i++;
        i++;
        seq++;
        std::string l = label_of(k);
        if (op == 'i') {
            bool known = m.count(l) > 0;
            if (known) {
                if (search_symbol(st, l.c_str()) != m[l]) {
                    bad("lookup of a recorded label failed");
                    break;
                }
                continue;
            }
            if (search_symbol(st, l.c_str()) != ERROR_SYMBOL_NOT_FOUND) {
                bad("a label never recorded is found");
                break;
            }
            int v = (k * 257 + seq) & 0xffff;
            uint32_t f0 = faults();
            int rc = insert_symbol(st, l.c_str(), v);
            if (rc >= 0) m[l] = v;
            else {
                if (faults() == f0) {
                    bad("recording a label failed although memory was available");
                    break;
                }
                if (search_symbol(st, l.c_str()) != ERROR_SYMBOL_NOT_FOUND) {
                    bad("a label whose recording failed is found");
                    break;
                }
                if (!verify("after a failed label")) break;
                driver_alloc_faults(false);
                rc = insert_symbol(st, l.c_str(), v);
                driver_alloc_faults(true);
                if (rc < 0) {
                    bad("recording a label fails although memory is available again");
                    break;
                }
                m[l] = v;
            }
            if (seq % 5 == 0) fine = verify("after a label");
        } else if (op == 'f') {
            bool jump = k % 2;
            std::string pre(k % 5, k % 3 ? ' ' : '\t');
            std::string line = pre + (jump ? "JMP " : "BNE ") + l + (k % 4 ? "" : " ; later");
            std::string buf = line + (k % 6 ? "\n" : "  \n");
            Instruction in;
            in.mnemonic = jump ? JMP : BNE;
            in.addr_bitfield = 7 + k;
            in.addr_bitflag = 0x10 + k;
            in.opcode = 0;
            char lab[80];
            snprintf(lab, sizeof lab, "%s", l.c_str());
            Token t;
            memset(&t, 0, sizeof t);
            t.type = TOKEN_LABEL;
            t.str = lab;
            t.buffer_location = buf.c_str() + pre.size() + 4;
            int status = jump ? JUMP_FORWARD_REFERENCE : BRANCH_FORWARD_REFERENCE;
            RefModel x{l, line, seq * 3, seq, status, in.mnemonic, in.addr_bitflag, pre.size() + 4};
            bool quiet = false;
            for (int attempt = 0; attempt < 3; attempt++) {
                uint32_t f0 = faults();
                ForwardRef *r = create_forward_ref(buf.c_str(), &in, &t, status, seq * 3, seq);
                int rc = -1;
                if (r) {
                    rc = add_forward_ref(un, r);
                    if (rc < 0) destroy_forward_ref(r);
                }
                if (rc >= 0) {
                    rv.push_back(x);
                    break;
                }
                if (faults() == f0 || quiet) {
                    bad(quiet ? "recording a reference fails although memory is available again" : "recording a reference failed although memory was available");
                    fine = false;
                    break;
                }
                if (!verify("after a failed reference")) {
                    fine = false;
                    break;
                }
                quiet = true;
                driver_alloc_faults(false);
            }
            driver_alloc_faults(true);
            if (fine && seq % 5 == 0) fine = verify("after a reference");
        } else if (op == 's') {
            int v = search_symbol(st, l.c_str());
            if (m.count(l) ? v != m[l] : v != ERROR_SYMBOL_NOT_FOUND) {
                bad("lookup of " + l + " gives " + std::to_string(v));
                break;
            }
        }
    }
    if (cur->rec->misuse.empty()) {
        verify("at the end");
        destroy_unresolved(un);
        destroy_symbol_table(st);
    }
    return 0;
}

}  // namespace sim
#endif
