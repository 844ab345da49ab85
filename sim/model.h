// Independent reference assembler: what a source text denotes. Written from the 6502 documentation and gaia's
// documented grammar; shares no code with gaia.
#pragma once
#include <string>
#include <vector>

namespace model {
enum Kind { OK, ERR, UNSPEC };
struct Result {
    Kind kind = OK;
    std::string image;
    long nbytes = 0;
    int nsyms = 0;
    std::vector<int> lines;          // ERR: acceptable offending line numbers (1-based)
    std::vector<std::string> texts;  // their text
    std::string why;
    int nrefs = 0, ninstr = 0, nlines = 0;
    size_t err_offset = 0;           // the same for a line that is wrong in itself
    size_t end_offset = 0;           // bytes of source up to and including the .END line (0: no .END line, or no line end)
};
Result assemble(const std::string &src);
// opcode or -1. modes: IMP ACC IMM ZP ZPX ZPY ABS ABX ABY IND INX INY REL
enum Mode { IMP, ACC, IMM, ZP, ZPX, ZPY, ABS, ABX, ABY, IND, INX, INY, REL, NMODES };
int opcode(int mnem, int mode);
extern const int NMNEM;
const char *mnemonic(int i);
int find_mnemonic(const std::string &upper);
bool is_branch(int mnem);
bool is_jump(int mnem);
}  // namespace model
