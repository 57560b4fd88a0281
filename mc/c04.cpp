// C04: malformed instructions are always rejected.
#include "check.hpp"
#include "edits.hpp"
#include <algorithm>

namespace check {

void c04()
{
    const auto& forms = model::forms();
    edits::run_all(edits::plain, Reject, "illegal text accepted");
    // combinations of operand choices that the form cannot express
    const int depth = run::thorough ? 4 : 3;
    struct Item { int form, first; };
    std::vector<Item> items;
    for (auto& f : forms)
        for (size_t i = 0; i < f.ops.size(); ++i)
            if (gen::choices()[f.index][i].alt.size() > 1) items.push_back({f.index, int(i)});
    run::all("operand combinations", items.size(), [&](size_t k) {
        gen::deviations(items[k].form, depth, 1, items[k].first, [&](auto& pick) {
            if (!run::stop()) conform(gen::text(items[k].form, pick), Reject, "illegal combination accepted");
        });
    });
    // all combinations of modifiers, with two settings of the other operands
    struct Part { int form; uint64_t b, e; };
    std::vector<Part> parts;
    for (auto& f : forms) {
        uint64_t n = 1;
        for (auto& c : gen::choices()[f.index])
            if (c.modifier) n = std::min<uint64_t>(n * c.alt.size(), 1ULL << 40);
        for (uint64_t b = 0; b < n; b += 5000) parts.push_back({f.index, b, std::min(n, b + 5000)});
    }
    run::all("complete modifier products", parts.size(), [&](size_t k) {
        const auto& ch = gen::choices()[parts[k].form];
        std::vector<uint32_t> pick(ch.size(), 0);
        for (uint64_t x = parts[k].b; x < parts[k].e && !run::stop(); ++x) {
            uint64_t y = x;
            for (size_t i = 0; i < ch.size(); ++i)
                if (ch[i].modifier) pick[i] = uint32_t(y % ch[i].alt.size()), y /= ch[i].alt.size();
            for (uint32_t other = 0; other < 2; ++other) {
                for (size_t i = 0; i < ch.size(); ++i)
                    if (!ch[i].modifier) pick[i] = std::min(other, uint32_t(ch[i].core) - 1);
                conform(gen::text(parts[k].form, pick), Reject, "illegal combination accepted");
            }
        }
    });
    // guards of instructions that take none
    run::all("guards", forms.size(), [&](size_t k) {
        for (auto& g : gen::guards)
            for (const std::string& t : {gen::simplest(int(k)), gen::rich(int(k))})
                if (!run::stop()) conform(g + t, Reject, "guard accepted");
    });
    // mistakes between and after other instructions
    static const std::vector<std::string> bases = {"NOP;", "MOV R1, R2;", "@P0 FADD R1, R2, 1.5 @WAIT 3;", "LDG.E R1, [R2+0x10];", "EXIT;", "x:"};
    std::vector<int> before;
    for (int n = 0; n <= (run::thorough ? 70 : 13); ++n) before.push_back(n);
    for (int n : {16, 24, 25, 32, 33, 64, 100, 300, 1000}) before.push_back(n);
    run::all("mistakes after other instructions", before.size() * bases.size(), [&](size_t k) {
        static const char* const body[] = {"NOP;", "IADD R1, R2, R3;\n", "@P1 MOV R1, R2 @YIELD;\n", "EXIT;\n", "ISETP.GT.AND P0, PT, R1, R2, PT;"};
        std::string head;
        for (int i = 0; i < before[k / bases.size()]; ++i) head += body[i % 5];
        const std::vector<std::string> b = gen::split_tokens(bases[k % bases.size()]);
        auto put = [&](const std::vector<std::string>& t) {
            if (run::stop()) return;
            std::string s = head;
            for (auto& w : t) s += w, s += ' ';
            conform(s, Reject, "illegal text accepted");
            conform(s + "\nNOP;", Reject, "illegal text accepted");
        };
        const bool few = before[k / bases.size()] >= 300;
        for (size_t i = 0; i <= b.size(); ++i) {
            std::vector<std::string> t = b;
            t.insert(t.begin() + long(i), "");
            for (size_t w = 0; w < edits::vocabulary().size(); ++w) {
                const std::string& word = edits::vocabulary()[w];
                if (few && word[0] == '.') continue;
                t[i] = word;
                put(t);
                if (i == b.size()) continue;
                std::vector<std::string> u = b;
                u[i] = word;
                put(u);
            }
            if (i == b.size()) break;
            t = b;
            t.erase(t.begin() + long(i));
            put(t);
            t = b;
            t.insert(t.begin() + long(i), b[i]);
            put(t);
            put(std::vector<std::string>(b.begin(), b.begin() + long(i)));
        }
    });
    run::bound("all one-token edits of six statements after " + std::to_string(before.size()) + " numbers of instructions; combinations of up to " + std::to_string(depth) + " operand choices per form; all combinations of modifiers of every form; all 17 guards on every form");
}

} // namespace check
