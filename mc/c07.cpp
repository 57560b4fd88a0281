// C07: scheduling annotations and reuse flags land in their own slot.
#include "check.hpp"
#include <algorithm>

namespace check {
namespace {
void put(const std::string& t) { if (!run::stop()) conform(t, Accept | Reject, "scheduling"); }

std::string annotations(int stall, int yield, int wb, int rb, int deps)
{
    std::string s;
    if (stall >= 0) s += " @WAIT " + std::to_string(stall);
    if (yield == 1) s += " @Y";
    if (yield == 2) s += " @YIELD";
    if (wb >= 0) s += " @WB " + std::to_string(wb);
    if (rb >= 0) s += " @RB " + std::to_string(rb);
    for (int i = 0; i < 6; ++i)
        if (deps >> i & 1) s += " @DEP " + std::to_string(i);
    return s;
}
} // namespace

void c07()
{
    // every combination of values, in each slot of a group, next to idle and fully annotated neighbours
    static const char* const neighbour[] = {"NOP;", "NOP @WAIT 15 @Y @WB 0 @RB 0 @DEP 0 @DEP 1 @DEP 2 @DEP 3 @DEP 4 @DEP 5;", "IADD R1, R2.reuse, R3.reuse;"};
    run::all("all combinations", 17 * 3 * 7 * 7, [&](size_t k) {
        int stall = int(k % 17) - 1, yield = int(k / 17 % 3), wb = int(k / 51 % 7) - 1, rb = int(k / 357) - 1;
        for (int deps = 0; deps < 64; ++deps) {
            std::string a = "IADD R9, R8, R7" + annotations(stall, yield, wb, rb, deps) + ";";
            for (int slot = 0; slot < 3; ++slot)
                for (int nb = 0; nb < 3; ++nb) {
                    if (nb && !run::thorough && (deps * 5 + int(k)) % 4 != nb) continue;
                    std::string t;
                    for (int i = 0; i < 4; ++i) t += i == slot ? a : neighbour[(nb + (i == 3)) % 3];
                    put(t);
                }
            for (int m = 1; m < 8; ++m) { // with every set of reuse flags
                if (yield == 2 && !run::thorough) break;
                std::string f = std::string("FFMA R1, R2") + (m & 1 ? ".reuse" : "") + ", R3" + (m & 2 ? ".reuse" : "") + ", R4" + (m & 4 ? ".reuse" : "") + annotations(stall, yield, wb, rb, deps) + ";";
                put(std::string("NOP;NOP;") .substr(0, size_t((m + deps) % 3) * 4) + f);
            }
            if (k == 700 && deps == 37) run::sample(a);
        }
    });
    // groups: all settings of the reuse flags of three neighbours, each with and without annotations
    static const char* const note[] = {"", " @WAIT 15", " @WAIT 0 @Y", " @WB 0 @RB 5", " @DEP 5 @DEP 0 @Y"};
    run::all("groups", 40 * 40, [&](size_t k) {
        auto insn = [&](size_t x) {
            std::string s = "FFMA R1, R2";
            if (x & 1) s += ".reuse";
            s += ", R3";
            if (x & 2) s += ".reuse";
            s += ", R4";
            if (x & 4) s += ".reuse";
            return s + note[x / 8] + ";";
        };
        for (size_t c = 0; c < 40; ++c) {
            put(insn(k % 40) + insn(k / 40) + insn(c));
            if (run::thorough || c % 5 == k % 5) put("NOP;" + insn(k % 40) + insn(k / 40) + insn(c) + insn(k % 40));
        }
    });
    run::bound("all groups of three out of 40 settings (reuse flags x annotations)");
    // every order, and every repetition, of up to 4 annotations
    std::vector<std::string> one = {"@WAIT 5", "@WAIT 0", "@WAIT 0xf", "@Y", "@YIELD", "@WB 0", "@WB 5", "@RB 0", "@RB 3", "@DEP 0", "@DEP 5", "@DEP 2"};
    for (const char* bad : {"@WAIT 16", "@WAIT -1", "@WAIT", "@WB 6", "@WB -1", "@WB 7", "@WB", "@RB 6", "@RB 7", "@RB -1", "@RB", "@DEP 6", "@DEP -1", "@DEP", "@DEP 7", "@", "@X", "@wait 1",
                            "WAIT 1", "@P0", "@WAIT 1.0", "@WAIT R1", "@Y 1", "@YIELD 0", "@ WAIT 3", "@WAIT 0x10", "@WAIT +3", "@DEP 63", "@DEP 32", "@WAIT 4294967296", "@DEP 4294967296", "@WB 8"})
        one.push_back(bad);
    const size_t M = one.size();
    run::all("orders and repetitions", M * M, [&](size_t k) {
        const std::string& a = one[k % M];
        const std::string& b = one[k / M];
        put("NOP " + a + ";");
        put("NOP " + a + " " + b + ";");
        put("NOP;NOP " + a + b + ";NOP @WAIT 1;");
        for (size_t i = 0; i < M; ++i) {
            put("NOP; NOP " + a + " " + b + " " + one[i] + ";");
            if (i < 12 && k % M < 12 && k / M < 12)
                for (size_t j = 0; j < 12; ++j) {
                    put("EXIT " + a + " " + b + " " + one[i] + " " + one[j] + ";");
                    if (run::thorough)
                        for (size_t l = 0; l < 12; ++l) put("EXIT " + a + " " + b + " " + one[i] + " " + one[j] + " " + one[l] + ";");
                }
        }
    });
    // all values of each number
    run::all("annotation values", 5, [&](size_t k) {
        static const char* const n[] = {"WAIT", "WB", "RB", "DEP", "Y"};
        for (int v = -300; v < 70000; ++v) put(std::string("NOP @") + n[k] + " " + std::to_string(v) + ";");
        for (int b = 0; b < 63; ++b)
            for (int d = 0; d < 16; ++d) put(std::string("NOP @") + n[k] + " " + std::to_string((int64_t(1) << b) + d) + ";");
    });
    // reuse: all subsets of the registers of every form
    run::all("reuse flags", model::forms().size(), [&](size_t k) {
        const auto& ops = model::forms()[k].ops;
        std::vector<int> regs;
        for (size_t i = 0; i < ops.size(); ++i)
            switch (ops[i].kind) {
            case model::Op::Reg: case model::Op::Mirror: case model::Op::Addr: case model::Op::AddrReg: case model::Op::LdcAddr:
            case model::Op::AttrPatch: case model::Op::AttrPhys: case model::Op::Pred: regs.push_back(int(i)); break;
            default: break;
            }
        for (unsigned m = 0; m < 1u << regs.size(); ++m) {
            // insert .reuse behind the chosen registers in the text
            for (const std::string& base : {gen::simplest(int(k)), gen::rich(int(k))}) {
                auto t = gen::split_tokens(base);
                std::string s;
                unsigned r = 0;
                for (size_t i = 0; i < t.size(); ++i) {
                    s += t[i];
                    bool reg = (t[i][0] == 'R' && t[i].size() > 1 && (t[i] == "RZ" || (t[i][1] >= '0' && t[i][1] <= '9'))) ||
                               (t[i][0] == 'P' && t[i].size() == 2);
                    if (reg && i) {
                        if (m >> r & 1) s += ".reuse";
                        ++r;
                    }
                    s += ' ';
                }
                for (int slot = 0; slot < 3; ++slot) {
                    std::string x;
                    for (int i = 0; i < slot; ++i) x += "NOP @WAIT 3;";
                    put(x + s + "NOP @Y;");
                    if (s.size() > 2) {
                        std::string y = s;
                        y.erase(y.rfind(';'));
                        put(x + y + " @WAIT 9 @DEP 3;");
                    }
                }
            }
        }
    });
    run::bound("all 17*3*7*7*64 combinations of annotation values in each slot of a group next to three kinds of neighbours; all sequences of up to 3 of " + std::to_string(M) +
               " annotations (legal and not), of " + std::string(run::thorough ? "5" : "4") + " of 12; all values -300..70000 and above powers of two of each number; .reuse on every subset of the registers of every form in every slot; every set of reuse flags with all combinations of annotation values");
}

} // namespace check
