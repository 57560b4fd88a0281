// Reference model of the assembler: lexer, labels, instruction forms, layout, container.
// Independent of /repo: nothing here includes or links the code under test.
#pragma once
#include <cstdint>
#include <string>
#include <string_view>
#include <unordered_map>
#include <vector>

namespace model {

enum class Op : uint8_t {
    Flag, Mod, Word, Lit, OptLit, Const, Imp, Comma, Reg, Mirror, Pred, PredInv, Neg, Tilde, Abs, EndAbs,
    Po, PoNeg, PoPostNeg, UInt, SInt, SImm20, UImm20x, F20, F32, D20, H9, H16, CBuf, Addr, AddrReg, LdcAddr,
    AttrImm, AttrPatch, AttrPhys, XmadSigns, F2fRound, Fmt, Sel16, VFmt, VSel, AtomicSize, LdgSize, S2r,
    TexsMode, TexsType, TldsLod, TldsAoffi, TldsMs, TldsType, Swizzle, Zero, Label, FlowOpt, FlowReq,
};

struct Operand {
    Op kind;
    std::string text;                // flag, lit, imp
    std::vector<std::string> names;  // mod, word, fmt (unsigned)
    std::vector<std::string> names2; // fmt (signed)
    int a = 0, b = 0, c = 0;         // positions and sizes
    uint64_t bits = 0;
    bool required = false;
    uint64_t dflt = 0;
};

struct Form {
    uint64_t opcode;
    bool nopred;
    std::string mnemonic;
    std::vector<Operand> ops;
    int index;
};

const std::vector<Form>& forms();
const std::vector<std::string>& mnemonics();
const std::vector<std::string>& flow_tests();
const std::vector<std::string>& system_registers(); // by index, "" = not nameable by a plain word

enum class T : uint8_t { End, Ident, Reg, Pred, Int, Float, Punct, Bad };

struct Tok {
    T t = T::End;
    char ch = 0;          // Punct
    std::string_view s;   // source text
    int64_t i = 0;        // Int; Reg and Pred: number
    bool neg = false;     // Pred
    float f = 0;          // Float
    int line = 1, col = 1;
    size_t beg = 0;
};

std::vector<Tok> lex(std::string_view text);

struct Pos {
    int line, col;
    bool operator==(const Pos&) const = default;
    auto operator<=>(const Pos&) const = default;
};

struct Insn {
    uint64_t word = 0;
    uint32_t sched = 0; // 21 bits
    std::string key;    // canonical meaning, when asked for
    int form = -1;
};

struct Program {
    bool ok = false;
    std::vector<uint64_t> words; // complete output
    std::vector<Insn> insns;
    std::vector<Pos> where;      // when not ok: positions a diagnostic may name; empty: none is required
};

struct Options {
    bool keys = false;
};

Program assemble(std::string_view text, const Options& o = {});
extern uint64_t steps; // transitions of the model so far: operands, annotations, directives and guards consumed

constexpr uint64_t NOP_WORD = 0x50B0000000070F00ULL;
constexpr uint64_t IDLE = 0x7E0;

// address of instruction number n
constexpr int64_t address(int64_t n) { return 8 + 8 * n + 8 * (n / 3); }

std::vector<uint64_t> layout(const std::vector<Insn>& insns);

// field values of literals (C03)
uint16_t half_of(float f);
bool parse_float32(std::string_view s, float& out);
}
