// C06: instruction stream layout.
#include <algorithm>
#include "check.hpp"

namespace check {
namespace {
// solo result of the code for one instruction: its word and scheduling entry
struct Solo { bool ok = false; uint64_t word = 0; uint32_t sched = 0; };
Solo solo(const std::string& t)
{
    const impl::Result& r = run::assemble(t);
    Solo s;
    if (r.ok() && r.words.size() == 4) s = {true, r.words[1], uint32_t(r.words[0] & 0x1FFFFF)};
    return s;
}
constexpr uint64_t IDLE3 = model::IDLE << 21 | model::IDLE << 42;

void compare(const std::vector<const std::string*>& text, const std::vector<Solo>& solos, const std::vector<int>& which)
{
    std::string t;
    for (int w : which) t += *text[w], t += '\n';
    run::states();
    run::transitions(which.size());
    const impl::Result& r = run::assemble(t);
    run::traces();
    std::vector<uint64_t> want;
    for (size_t i = 0; i < which.size(); i += 3) {
        uint64_t s = 0;
        for (size_t j = 0; j < 3; ++j) s |= (i + j < which.size() ? uint64_t(solos[which[i + j]].sched) : model::IDLE) << (21 * j);
        want.push_back(s);
        for (size_t j = 0; j < 3; ++j) want.push_back(i + j < which.size() ? solos[which[i + j]].word : model::NOP_WORD);
    }
    if (r.ok() && r.words == want) return;
    // ask a fresh process
    run::confirm(Accept, t, "layout");
}
} // namespace

void c06()
{
    // instructions without branches, each with its own annotations
    std::vector<std::string> text;
    for (auto& f : model::forms()) {
        std::string t = gen::simplest(f.index);
        bool branch = false;
        for (auto& o : f.ops) branch |= o.kind == model::Op::Label;
        if (branch) continue;
        t.pop_back();
        char b[64];
        std::snprintf(b, sizeof b, " @WAIT %d @WB %d%s;", 1 + f.index % 15, f.index % 6, f.index % 2 ? " @Y" : "");
        text.push_back(t + b);
    }
    const int N = int(text.size());
    std::vector<const std::string*> ptr;
    for (auto& t : text) ptr.push_back(&t);
    // lengths
    const int max = run::thorough ? 30000 : 10000;
    const size_t chunk = 10;
    run::all("lengths", size_t(max) / chunk + 1, [&](size_t k) {
        std::vector<Solo> s;
        for (auto& t : text) s.push_back(solo(t));
        for (size_t n = k * chunk; n < (k + 1) * chunk && !run::stop(); ++n) {
            std::vector<int> w;
            for (size_t i = 0; i < n; ++i) w.push_back(int((i * 7 + n) % size_t(N)));
            compare(ptr, s, w);
        }
    });
    // every instruction at every position of programs of up to 9 instructions
    run::all("positions", size_t(N), [&](size_t k) {
        std::vector<Solo> s;
        for (auto& t : text) s.push_back(solo(t));
        for (int n = 1; n <= 9; ++n)
            for (int p = 0; p < n && !run::stop(); ++p) {
                std::vector<int> w(size_t(n), int((k + 11) % size_t(N)));
                for (int i = 0; i < n; ++i) w[size_t(i)] = (int(k) + 11 + 3 * i) % N;
                w[size_t(p)] = int(k);
                compare(ptr, s, w);
            }
    });
    // all programs of up to 5 (6) instructions over 9 of them
    const int A = 9, L = run::thorough ? 7 : 5;
    uint64_t total = 0;
    for (int l = 0; l <= L; ++l) {
        uint64_t c = 1;
        for (int i = 0; i < l; ++i) c *= A;
        total += c;
    }
    run::ranges("all short programs", total, 4000, [&](uint64_t b, uint64_t e) {
        std::vector<Solo> s;
        for (auto& t : text) s.push_back(solo(t));
        for (uint64_t x = b; x < e && !run::stop(); ++x) {
            uint64_t y = x, c = 1;
            int l = 0;
            while (y >= c) y -= c, c *= A, ++l;
            std::vector<int> w;
            for (int i = 0; i < l; ++i) w.push_back(int(y % A) * (N / A)), y /= A;
            compare(ptr, s, w);
        }
    });
    // directives, labels and empty lines between instructions do not count
    static const char* const fill[] = {"", "\n\n", "l:\n", "l: ", " l:\n", ".type compute\n", ".num_gprs 5\n", "\n.local_memory 16\n", "\t\r\n"};
    run::all("fillers", std::size(fill) * std::size(fill) * 8, [&](size_t k) {
        const char* f1 = fill[k % std::size(fill)];
        const char* f2 = fill[k / std::size(fill) % std::size(fill)];
        size_t n = k / (std::size(fill) * std::size(fill));
        std::string t;
        for (size_t i = 0; i < n; ++i) t += std::string("\n") + (i % 3 == 0 ? f1 : i % 3 == 1 ? f2 : "") + text[i * 5];
        conform(t, Accept, "layout");
        conform(t + "\n" + f2, Accept, "layout");
    });
    // large programs
    std::vector<int> large = {9999, 10000, 65535, 65536, 65537, 100000, 100001, 200000, 262144, 524287};
    // around every power of two of instructions and of words
    for (int k = 13; k <= (run::thorough ? 20 : 17); ++k)
        for (int d = -4; d <= 4; ++d) large.push_back((1 << k) + d), large.push_back((1 << k) / 4 * 3 + d);
    if (run::thorough) large.insert(large.end(), {1000000, 1048576, 2000001, 3000000});
    run::all("large programs", large.size(), [&](size_t k) {
        std::vector<Solo> s;
        for (auto& t : text) s.push_back(solo(t));
        std::vector<int> w;
        for (int i = 0; i < large[k]; ++i) w.push_back((i * 5) % 40);
        compare(ptr, s, w);
        run::alive();
    });
    run::bound("all lengths 0.." + std::to_string((max / int(chunk) + 1) * int(chunk) - 1) + ", every non-branch form at every position of programs of 1..9 instructions, all " + std::to_string(total) +
               " programs of up to " + std::to_string(L) + " of 9 instructions, lengths around every power of two of instructions and of words, and lengths up to " + std::to_string(*std::max_element(large.begin(), large.end())) + "; each instruction is compared with its word when assembled alone");
}

} // namespace check
