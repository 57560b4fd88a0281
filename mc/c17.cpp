// C17: register and predicate names denote exactly the architectural set.
#include "check.hpp"
#include <set>

namespace check {
namespace {
using model::Op;
void put(const std::string& t) { if (!run::stop()) conform(t, Accept | Reject, "register or predicate name"); }
std::string replace(const char* f, const std::string& w)
{
    std::string s = f;
    s.replace(s.find('#'), 1, w);
    return s;
}
} // namespace

void c17()
{
    // every position of every form x every name, legal and near misses
    std::vector<std::string> names;
    for (int i = 0; i < 300; ++i) names.push_back("R" + std::to_string(i));
    for (const char* s : {"RZ", "R", "Rz", "r0", "rz", "RZZ", "RZ0", "R0Z", "R00", "R007", "R000255", "R0254", "R-1", "R+1", "R 1", "R1x", "R1_", "R0x1", "R1.5", "R.1", "RR1", "R999", "R1000", "R4294967296", "R4294967297", "R18446744073709551616", "R18446744073709551617",
                          "R9223372036854775807", "R9223372036854775808", "R99999999999999999999999999", "-R1", "!R1", "R1:", "R!", "RT", "RP0", "UR1", "R1R2", "P0", "P1", "P2", "P3", "P4", "P5", "P6", "P7", "P8", "P9", "PT", "Pt", "pT", "pt", "p0", "p6", "p7", "P", "p", "P00", "P01", "P10", "P70", "P-1", "P 0", "PTT", "PT0", "P0T", "PZ", "P0x", "P_",
                          "!P0", "!P1", "!P2", "!P3", "!P4", "!P5", "!P6", "!P7", "!P9", "!PT", "!Pt", "!pt", "!p0", "!p3", "!P", "!", "! P0", "!!P0", "!P00", "!PTT", "!P10", "!Px", "~P0", "-P0", "T", "0", "1", "255", "-1", "1.5", "CC", "c", "SR0"})
        names.push_back(s);
    struct Item { int form, op; };
    std::vector<Item> items;
    for (auto& f : model::forms())
        for (size_t i = 0; i < f.ops.size(); ++i)
            switch (f.ops[i].kind) {
            case Op::Reg: case Op::Mirror: case Op::Pred: case Op::PredInv: case Op::Addr: case Op::AddrReg: case Op::LdcAddr: case Op::AttrPatch: case Op::AttrPhys:
                items.push_back({f.index, int(i)});
                break;
            default: break;
            }
    run::all("every position", items.size(), [&](size_t k) {
        const Item& it = items[k];
        const Op kind = model::forms()[it.form].ops[it.op].kind;
        for (auto& n : names) {
            switch (kind) {
            case Op::Addr: put(gen::simplest(it.form, it.op, "[" + n + "]")); put(gen::simplest(it.form, it.op, "[" + n + "+0x4]")); break;
            case Op::AddrReg: put(gen::simplest(it.form, it.op, "[" + n + "]")); break;
            case Op::LdcAddr: put(gen::simplest(it.form, it.op, "c[0x2][" + n + "+0x4]")); put(gen::simplest(it.form, it.op, "c[0x2][" + n + "]")); break;
            case Op::AttrPatch: put(gen::simplest(it.form, it.op, "a[" + n + "+0x4]")); break;
            case Op::AttrPhys: put(gen::simplest(it.form, it.op, "a[" + n + "]")); break;
            default: put(gen::simplest(it.form, it.op, n)); break;
            }
        }
        if (k % 150 == 1) run::sample(gen::simplest(it.form, it.op, "R254"));
    });
    // guards
    run::all("guards", model::forms().size(), [&](size_t k) {
        for (auto& n : names) {
            put("@" + n + " " + gen::simplest(int(k)));
            put("@ " + n + "\n" + gen::simplest(int(k)));
        }
    });
    // all words of up to 4 (5) characters that start like a register, up to 3 (4) like a predicate
    static const char digits[] = "0123456789ZzRPTtx.:_!-+ ";
    constexpr uint64_t D = std::size(digits) - 1;
    const int rl = run::thorough ? 4 : 3, pl = run::thorough ? 4 : 3;
    uint64_t rn = 1, pn = 1;
    for (int i = 0; i < rl; ++i) rn *= D;
    for (int i = 0; i < pl; ++i) pn *= D;
    run::ranges("all short words after R", rn, 2000, [&](uint64_t b, uint64_t e) {
        for (uint64_t x = b; x < e; ++x) {
            std::string w = "R";
            for (uint64_t y = x, i = 0; i < uint64_t(rl); ++i, y /= D) w += digits[y % D];
            for (const char* f : {"MOV #, R2;", "MOV R2, #;", "IADD3 R1, R2, R3, #;", "LDG R1, [#];", "FADD R1, -|#|, R3;", "STG [#+0x10], R1;"}) put(replace(f, w));
        }
    });
    run::ranges("all short words after P", pn * 4, 2000, [&](uint64_t b, uint64_t e) {
        static const char* const start[] = {"P", "p", "!P", "!p"};
        for (uint64_t x = b; x < e; ++x) {
            std::string w = start[x % 4];
            for (uint64_t y = x / 4, i = 0; i < uint64_t(pl); ++i, y /= D) w += digits[y % D];
            for (const char* f : {"@# NOP;", "SEL R1, R2, R3, #;", "PSETP.AND.AND #, P1, P2, P3, P4;", "PSETP.AND.AND P0, P1, #, P3, P4;", "LDG #, R1, [R2];"}) put(replace(f, w));
        }
    });
    // all decimal numbers
    const uint64_t max = run::thorough ? 3000000 : 300000;
    run::ranges("register numbers", max, 5000, [&](uint64_t b, uint64_t e) {
        for (uint64_t x = b; x < e; ++x) {
            put("MOV R" + std::to_string(x) + ", R1;");
            if (x < 3000) put("SHL R1, R00" + std::to_string(x) + ", R" + std::to_string(x) + ";"), put("@P" + std::to_string(x) + " NOP;");
        }
        if (!b)
            for (int s = 8; s < 70; ++s)
                for (uint64_t d = 0; d < 300; ++d) {
                    unsigned __int128 v = (static_cast<unsigned __int128>(1) << s) + d;
                    std::string t;
                    do t.insert(t.begin(), char('0' + int(v % 10))), v /= 10;
                    while (v);
                    put("MOV R" + t + ", R1;");
                    put("MOV R1, R" + t + ";");
                }
    });
    run::bound(std::to_string(items.size()) + " register and predicate positions and the guard of every form x " + std::to_string(names.size()) + " names; all words R + " + std::to_string(rl) + " and [!]P/p + " + std::to_string(pl) +
               " of 24 characters in 6 and 5 contexts; register numbers 0.." + std::to_string(max - 1) + " and 2^8..2^69 + 0..299");
}

} // namespace check
