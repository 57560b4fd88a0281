// C09: white space and line layout do not change the result.
#include "check.hpp"
#include <string_view>

namespace check {
namespace {
// May the two tokens stand next to each other?
bool delimited(const std::string& a, const std::string& b)
{
    auto op = [](char c) { return std::string_view("+-~|[]@,;").find(c) != std::string_view::npos; };
    auto dig = [](char c) { return c >= '0' && c <= '9'; };
    bool signed_a = a.size() > 1 && (a[0] == '+' || a[0] == '-');
    bool number_a = dig(a[0]) || signed_a;
    if (op(b[0])) {
        // a sign directly before a digit belongs to the number; a number takes in following signs
        if ((b[0] == '+' || b[0] == '-') && number_a) return false;
        return true;
    }
    if (a.size() == 1 && op(a[0])) return !((a[0] == '+' || a[0] == '-') && dig(b[0]));
    return b[0] == '.' && !number_a;
}
std::string join(const std::vector<std::string>& t, const std::vector<const char*>& gap)
{
    std::string s = gap[0];
    for (size_t i = 0; i < t.size(); ++i) s += t[i], s += gap[i + 1];
    return s;
}
} // namespace

void c09()
{
    static const char* const ws[] = {" ", "", "\t", "\n", "\r\n", "  ", "\r", " \t\n", "\n\n\n", "                ", "\t\t", "\n \n\t\r"};
    constexpr int W = int(std::size(ws));
    const int pair = run::thorough ? W : 5;
    run::all("gaps of one instruction", model::forms().size() * 2, [&](size_t k) {
        std::string base = k % 2 ? gen::rich(int(k / 2)) : gen::simplest(int(k / 2));
        if (k % 2 && !model::forms()[k / 2].nopred) {
            base.pop_back();
            base = "@!P2 " + base + " @WAIT 2 @Y @DEP 0;";
        }
        const auto t = gen::split_tokens(base);
        const model::Program want = model::assemble(base);
        if (!want.ok) return;
        std::vector<const char*> gap(t.size() + 1, " ");
        auto put = [&] {
            if (run::stop()) return;
            for (size_t i = 0; i + 1 < t.size(); ++i)
                if (!*gap[i + 1] && !delimited(t[i], t[i + 1])) return;
            std::string s = join(t, gap);
            run::states();
            run::transitions(t.size());
            const impl::Result& r = run::assemble(s);
            run::traces();
            if (!r.ok() || r.words != want.words) run::confirm(Accept, s, "white space");
            if (k % 97 == 3 && gap[1] == ws[3]) run::sample(s);
        };
        for (int w = 0; w < W; ++w) { // everywhere the same; one gap; the others
            std::fill(gap.begin(), gap.end(), ws[w]);
            if (*ws[w]) put();
        }
        {   // as tight as possible, in front of and behind every token
            for (size_t i = 0; i + 1 < t.size(); ++i) gap[i + 1] = delimited(t[i], t[i + 1]) ? "" : " ";
            gap[0] = gap[t.size()] = "";
            put();
            for (size_t i = 0; i <= t.size(); ++i) {
                const char* old = gap[i];
                for (int w = 0; w < W; ++w) {
                    gap[i] = ws[w];
                    put();
                }
                gap[i] = old;
            }
        }
        std::fill(gap.begin(), gap.end(), " ");
        for (size_t i = 0; i < gap.size(); ++i) {
            for (int w = 1; w < W; ++w) {
                gap[i] = ws[w];
                put();
                for (size_t j = i + 1; j < gap.size(); ++j) {
                    for (int v = 1; v < pair; ++v) {
                        gap[j] = ws[v];
                        put();
                    }
                    gap[j] = " ";
                }
            }
            gap[i] = " ";
        }
    });
    // all layouts of short programs with several instructions, labels and directives
    static const char* const part[] = {"NOP;", "MOV R1,R2;", "@P0 EXIT;", "l:\n", "\n.num_gprs 5\n", "FADD R1,-R2,-1.5;"};
    static const char* const sep[] = {"", " ", "\n", "\t", "\r\n", "\n\n \t"};
    constexpr int P = int(std::size(part)), S = int(std::size(sep));
    run::all("programs", size_t(P * P * P), [&](size_t k) {
        for (int s = 0; s < S * S * S * S; ++s) {
            if (run::stop()) return;
            std::string t = sep[s % S];
            t += part[k % P];
            t += sep[s / S % S];
            t += part[k / P % P];
            t += sep[s / (S * S) % S];
            t += part[k / (P * P)];
            t += sep[s / (S * S * S)];
            conform(t, Accept, "white space");
        }
    });
    // label markers between the tokens
    static const char* const word[] = {"x:", "X1_y:", "_:", ".x:", ".:", "P0:", "PT:", "Rx:", "R:", "RZZ:", "#:", "?:", "a:b:", "::", ":", "!Px:", "(:", "main:", "NOP:", "c:", "WAIT:", "compute:", ".num_gprs:", "$x:", "\xe4:", "x::", "INF:"};
    run::all("label markers", model::forms().size(), [&](size_t k) {
        for (const std::string& base : {gen::simplest(int(k)), "@!P2 " + gen::rich(int(k))}) {
            const auto t = gen::split_tokens(base);
            for (const char* w : word)
                for (size_t i = 0; i <= t.size(); ++i)
                    for (const char* around : {" ", "\n", "\t\r\n"}) {
                        if (run::stop()) return;
                        std::string s;
                        for (size_t j = 0; j <= t.size(); ++j) {
                            if (i == j) s += around, s += w, s += around;
                            if (j < t.size()) s += t[j], s += ' ';
                        }
                        conform(s, Accept, "white space");
                    }
        }
    });
    run::bound(std::to_string(std::size(word)) + " label markers in every gap of two texts of every form");
    // every run of up to 6 white-space characters between two tokens
    run::all("runs of white space", 4096, [&](size_t k) {
        std::string w;
        for (size_t x = k; w.size() < 6; x /= 4) w += " \t\r\n"[x % 4];
        for (size_t n = 0; n <= 6; ++n) {
            std::string g = w.substr(0, n);
            conform("MOV" + (n ? g : " ") + "R1" + g + "," + g + "R2" + g + ";" + g + "NOP" + g + ";" + g, Accept, "white space");
            conform(g + "@" + g + "P1" + (n ? g : " ") + "FADD" + g + ".FTZ" + g + ".RM" + (n ? g : " ") + "R1" + g + "," + g + "|" + g + "R3" + g + "|" + g + "," + g + "-" + g + "c" + g + "[" + g + "0x1" + g + "]" + g + "[" + g + "4" + g + "]" + g + "@" + g + "WAIT" +
                        (n ? g : " ") + "3" + g + ";",
                    Accept, "white space");
        }
    });
    // long runs
    std::vector<size_t> sizes;
    for (size_t n = 1; n <= (run::thorough ? 2000u : 300u); ++n) sizes.push_back(n);
    for (int b = 9; b <= 17; ++b)
        for (int d = -2; d <= 2; ++d) sizes.push_back((size_t(1) << b) + size_t(d));
    for (size_t n : {size_t(1000), size_t(10000), size_t(100000), size_t(1000000)}) sizes.push_back(n);
    run::all("long runs of white space", sizes.size(), [&](size_t k) {
        const size_t n = sizes[k];
        for (const char* unit : {" ", "\t", "\n", "\r", "\r\n", " \n"}) {
            std::string g;
            while (g.size() < n) g += unit;
            for (int at = 0; at < 14; ++at) {
                if (run::stop()) return;
                static const char* const tok[] = {"@", "P1", " FADD", ".FTZ", " R1", ",", "-", "R2", ",", "1.5", "@", "WAIT", " 3", ";"};
                std::string t;
                for (int i = 0; i < 14; ++i) {
                    if (i == at) t += g;
                    t += tok[i];
                }
                conform(t, Accept, "white space");
            }
            conform("NOP;" + g + "l:" + g + "BRA" + g + "l;" + g, Accept, "white space");
            conform("NOP;" + g + "\n.num_gprs" + (unit[0] == ' ' || unit[0] == '\t' ? (unit[1] ? " " : g) : " ") + "5\n" + g + "NOP;", Accept, "white space");
        }
    });
    run::bound("runs of 1.." + std::to_string(run::thorough ? 2000 : 300) + " and of 2^9..2^17 +-2, 10^3..10^6 characters of 6 kinds at each of 14 gaps, around labels and directives");
    run::bound("two texts per form: each of 12 separators (also none, where tokens are delimited) in every gap of the spaced and of the tightest layout, in all gaps, and in all pairs of gaps (12 x " + std::to_string(pair) +
               "); all layouts of programs of three parts; all white-space runs of up to 6 characters");
}

} // namespace check
