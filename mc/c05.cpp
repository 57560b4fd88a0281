// C05: branch targets resolve to the right displacement.
#include "check.hpp"
#include <set>
#include <cstring>

namespace check {
namespace {
std::vector<std::string> branches()
{
    std::vector<std::string> v; // texts up to the target
    for (auto& f : model::forms())
        for (size_t i = 0; i < f.ops.size(); ++i)
            if (f.ops[i].kind == model::Op::Label) {
                for (const std::string& t : {gen::simplest(f.index, int(i), "TARGET"), gen::rich(f.index)}) {
                    size_t p = t.find("TARGET");
                    if (p != t.npos) v.push_back(t.substr(0, p));
                }
            }
    v.push_back("@!P3 BRA.U CC.LT, ");
    return v;
}
void put(const std::string& t) { if (!run::stop()) conform(t, Accept | Reject, "branch target"); }
} // namespace

void c05()
{
    const std::vector<std::string> br = branches();
    const int n = run::thorough ? 200 : 70;
    // all positions of branch and label
    run::all("positions", size_t(n + 1) * size_t(n + 1), [&](size_t k) {
        const int b = int(k) / (n + 1), l = int(k) % (n + 1);
        for (size_t j = 0; j < br.size(); ++j) {
            if (n > 70 && j && (b + l) % 5) continue;
            std::string t;
            const int last = std::max(b, l);
            for (int i = 0; i <= last; ++i) {
                if (i == l) t += "here:\n";
                if (i == b) t += br[j] + "here;\n";
                else if (i < last || i != l) t += i % 3 == 1 ? "MOV R1, R2;\n" : "NOP;\n";
            }
            put(t);
            if (k == 77) run::sample(t);
        }
    });
    // all sequences of short pieces of text
    static const char* const piece[] = {"NOP;", "BRA a;", "\n", "a:", "b:", " ", "SSY b;", "ba:", "a", "\r\n", ";", "\r"};
    constexpr int P = int(std::size(piece));
    const int len = run::thorough ? 7 : 6;
    uint64_t total = 1;
    for (int i = 0; i < len; ++i) total *= P;
    run::ranges("sequences of pieces", total, 20000, [&](uint64_t b, uint64_t e) {
        for (uint64_t x = b; x < e; ++x) {
            std::string t;
            uint64_t y = x;
            for (int i = 0; i < len; ++i) t += piece[y % P], y /= P;
            put(t);
        }
    });
    // several definitions, several branches: all placements
    run::all("repeated definitions", 8 * 8 * 8, [&](size_t k) {
        int d1 = int(k % 8), d2 = int(k / 8 % 8), d3 = int(k / 64);
        for (int b = 0; b < 8; ++b)
            for (int b2 = b + 1; b2 < 9; ++b2) {
                std::string t;
                for (int i = 0; i < 9; ++i) {
                    if (i == d1) t += "x:\n";
                    if (i == d2) t += "y:\n";
                    if (i == d3) t += "x:\n";
                    t += i == b ? "BRA x;\n" : i == b2 ? "PBK y;\n" : "NOP;\n";
                }
                put(t);
            }
    });
    // layouts of a definition and names
    static const char* const name[] = {"a", "A", "abc", "x1", "x_", "x_y_1", "_x", "1x", "R1", "R", "RZ", "P0", "PT", "p0", "c", "CC", "NOP", "BRA", "main", "INF", "T", "aa", "a1", "x.y", "x-y", "x:y", "longlonglonglonglonglonglonglonglonglonglonglonglong", "\xe4", "P", "P9x", "P12", "pT", "Ptx", "R1x", "D1", "a$"};
    static const char* const def[] = {"NAME:\nNOP;\n", "NAME: NOP;\n", "NAME:NOP;\n", " NAME:\nNOP;\n", "\tNAME:\nNOP;\n", "NAME :\nNOP;\n", "NAME:\r\nNOP;\r\n", "NAME:\n\n\n\nNOP;\n",
                                      "NAME:NAME:\nNOP;\n", "q:NAME:\nNOP;\n", "NOP; NAME:\n", "NOP;\nNAME:", "NAME: ", "NAME:;", "NAME::\nNOP;\n", "NAME\n:\nNOP;\n", "NOP;NOP;NOP;NOP;\nNAME: NOP;NOP;",
                                      "NOP\n;\nNAME:\nNOP;", "NOP;\n\nNAME:\n\nNAME:\n", "\nNAME:\n", "\rNAME:\nNOP;\n", "NOP;\rNAME:\nNOP;\n", "\n\rNAME:\nNOP;\n", "NOP;\vNAME:\nNOP;\n", "\fNAME:\nNOP;\n", "NAME:\rNOP;\r", "x:\rNAME:\nNOP;\n", "\n\n\tNAME: NOP;\n", "NAME:\tNOP;\n"};
    run::all("names and layouts", std::size(name) * std::size(def), [&](size_t k) {
        std::string nm = name[k / std::size(def)], d;
        for (const char* s = def[k % std::size(def)]; *s;) {
            if (!std::strncmp(s, "NAME", 4)) d += nm, s += 4;
            else d += *s++;
        }
        for (auto& b : br)
            for (int pre = 0; pre < 4; ++pre) {
                std::string p;
                for (int i = 0; i < pre; ++i) p += "NOP;\n";
                put(p + d + "\n" + b + nm + ";\n");
                put(p + b + nm + ";\n" + d);
                put(b + nm + "; " + d + p);
            }
    });
    // two names: each branch goes to its own
    std::vector<std::string> names;
    for (const char* s : {"a", "b", "A", "B", "ab", "ba", "aB", "Ab", "aa", "aaa", "abc", "abd", "bbc", "acb", "cab", "loop", "loop1", "loop2", "loop12", "loop_1", "Loop", "LOOP", "lo_op", "loo", "oop", "x1", "x2", "x10", "x01", "x001", "x_", "x__", "X1", "main", "mains", "ain",
                          "B1", "Aa", "BB", "AaAa", "BBBB", "AaBB", "BBAa", "R1", "R2", "RZ", "P0", "P1", "PT", "NOP", "BRA", "CC", "c", "a_very_long_label", "a_very_long_labem"})
        names.push_back(s);
    for (int n : {7, 8, 15, 16, 17, 22, 23, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1024, 4096}) {
        std::string x(size_t(n), 'q');
        names.push_back(x);
        x.back() = 'r';
        names.push_back(x);
        x.back() = 'q', x[0] = 'r';
        names.push_back(x);
        x[0] = 'q', x[size_t(n) / 2] = 'r';
        names.push_back(x);
    }
    run::all("pairs of names", names.size() * names.size(), [&](size_t k) {
        const std::string &a = names[k % names.size()], &b = names[k / names.size()];
        put(a + ":\nNOP;\n" + b + ":\nNOP;NOP;\nBRA " + a + ";\nBRA " + b + ";\n");
        put("BRA " + a + ";\nPBK " + b + ";\n" + a + ":\nNOP;\n" + b + ": NOP;NOP;\n");
        put("BRA " + a + ";\n" + b + ":\nNOP;\n"); // undefined unless equal
    });
    // many labels and many branches
    run::all("many labels", run::thorough ? 1000 : 300, [&](size_t n) {
        std::string t;
        for (size_t i = 0; i < n; ++i) t += "L" + std::to_string(i) + ": MOV R1, R2;\n";
        for (size_t i = 0; i < n; ++i) t += "BRA L" + std::to_string(i * 7 % n) + ";\n";
        put(t);
        t.clear();
        for (size_t i = 0; i < n; ++i) t += "NOP;\nfoo" + std::to_string(i) + ":\nBRA foo" + std::to_string((i * 5 + 3) % n) + ";\n";
        put(t);
        t.clear();
        for (size_t i = 0; i < n; ++i) t += "BRA x;\n";
        put(t + "x:\n");
        put("x:\n" + t);
    });
    run::bound("all ordered pairs of " + std::to_string(names.size()) + " names (similar prefixes, suffixes, case, equal lengths up to 4096) in 3 programs; programs of up to " + std::to_string(run::thorough ? 999 : 299) + " labels with a branch to each");
    // numeric targets, at every position in a group and around the limits
    run::all("numeric targets", 12 * 3, [&](size_t k) {
        const int at = int(k / 3);
        const int64_t pc = model::address(at);
        auto num = [&](int64_t v) {
            char b[64];
            for (auto& x : br) {
                std::string p;
                for (int i = 0; i < at; ++i) p += "NOP; ";
                std::snprintf(b, sizeof b, v < 0 ? "-0x%llx" : "0x%llx", (unsigned long long)(v < 0 ? -uint64_t(v) : uint64_t(v)));
                put(p + x + b + ";");
            }
        };
        if (k % 3 == 0)
            for (int64_t d = -600; d <= 600; ++d) num(pc + 8 + 8388607 + d), num(pc + 8 - 8388608 + d);
        if (k % 3 == 1)
            for (int64_t v = -600; v < 1200; ++v) num(v);
        if (k % 3 == 2)
            for (int b = 0; b < 63; ++b)
                for (int64_t d = -2; d <= 2; ++d) {
                    num((int64_t(1) << b) + d);
                    num(-(int64_t(1) << b) + d);
                    num(int64_t((1ULL << 63) - 1) - (int64_t(1) << b) + d);
                    num(INT64_MIN + (int64_t(1) << b) + 2 + d);
                }
    });
    // distances around the limit: 8388608 bytes are 262144 groups
    run::all("range limit", 2 * 9, [&](size_t k) {
        const bool forward = k < 9;
        const int64_t delta = int64_t(k % 9) - 4;
        const int64_t count = 786432 + delta; // instructions between
        for (int lead : {0, 1, 2}) {
            std::string t;
            for (int i = 0; i < lead; ++i) t += "NOP;\n";
            if (forward) t += "BRA far;\n";
            else t += "far:\n";
            std::string nops;
            for (int64_t i = 0; i < count; ++i) nops += "NOP;\n";
            t += nops;
            t += forward ? "far:\nEXIT;\n" : "BRA far;\n";
            if (!run::thorough && lead != 1 && delta != 0) continue;
            run::alive();
            put(t);
        }
    });
    // very many labels (each instruction costs time in proportion to them: few instructions)
    std::vector<int> many;
    for (int b = 8; b <= (run::thorough ? 18 : 16); ++b)
        for (int d = -1; d <= 1; ++d) many.push_back((1 << b) + d);
    many.insert(many.end(), {1000, 3000, 10000, 100000});
    run::all("many labels", many.size(), [&](size_t k) {
        const int n = many[k];
        std::set<int> probe = {0, 1, n / 2, n - 2, n - 1};
        for (int b = 6; (1 << b) < n; b += 2) probe.insert({(1 << b) - 1, 1 << b});
        std::string t;
        for (int i = 0; i < n; ++i) {
            t += "L" + std::to_string(i) + ":\n";
            if (probe.count(i)) t += i % 2 ? "NOP;\n" : "EXIT;NOP;\n";
        }
        for (int i : probe) t += "BRA L" + std::to_string(i) + ";L" + std::to_string(i) + ":\n"; // defined again: no effect
        run::alive();
        put(t);
        put(t + "BRA L" + std::to_string(n) + ";");
        put("L" + std::to_string(n - 1) + ": NOP;\n" + t);
    });
    run::bound("programs of up to " + std::to_string(run::thorough ? 262145 : 100000) + " labels with branches to the first, the last and those around powers of two");
    run::all("distances", 2 * 14, [&](size_t k) {
        const bool forward = k % 2;
        for (int64_t d = -2; d <= 2; ++d) {
            const int64_t count = (int64_t(1) << (6 + k / 2)) + d;
            std::string t = forward ? "BRA.U far;\n" : "NOP;\nfar:\n";
            for (int64_t i = 0; i < count; ++i) t += "NOP;\n";
            t += forward ? "far:\nEXIT;\n" : "SSY far;\n";
            run::alive();
            put(t);
            put(t + "NOP;\nfar:\nNOP;\nfar: BRA far;\n"); // defined again
        }
    });
    run::bound("all pairs of positions 0.." + std::to_string(n) + " of a branch and its label for every branch form; all sequences of " + std::to_string(len) + " out of " + std::to_string(P) +
               " pieces of text (instructions, labels, line ends); all placements of three definitions and two branches in 9 instructions");
    run::bound("36 names x 20 layouts of the definition; numeric targets -600..1200, limits +-600 and powers of two at 12 addresses; distances of 786432+-4 instructions in both directions");
}

} // namespace check
