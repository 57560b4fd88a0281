// C01: every legal instruction assembles to its exact ISA word.
#include "check.hpp"
#include <algorithm>

namespace check {

// All picks of the modifiers, the rest at its default.
static uint64_t product_size(int form)
{
    uint64_t n = 1;
    for (auto& c : gen::choices()[form])
        if (c.modifier) n = std::min<uint64_t>(n * c.alt.size(), 1ULL << 40);
    return n;
}

void c01()
{
    const auto& forms = model::forms();
    const int depth = run::thorough ? 4 : 3;
    const int full = run::thorough ? 2 : 1;
    // items: (form, first operand that differs from the default); -1: none differs
    struct Item { int form, first; };
    std::vector<Item> items;
    for (auto& f : forms) {
        items.push_back({f.index, -1});
        for (size_t i = 0; i < f.ops.size(); ++i)
            if (gen::choices()[f.index][i].alt.size() > 1) items.push_back({f.index, int(i)});
    }
    run::all("guards x forms x one deviation", items.size(), [&](size_t k) {
        for (size_t g = 1; g < gen::guards.size(); ++g)
            gen::deviations(items[k].form, items[k].first < 0 ? 0 : 1, 1, items[k].first, [&](auto& pick) {
                if (!run::stop()) conform(gen::text(items[k].form, pick, gen::guards[g]), Accept);
            });
    });
    run::all("guards x forms x two deviations", items.size(), [&](size_t k) {
        if (items[k].first < 0) return;
        for (size_t g = 1; g < gen::guards.size(); ++g)
            gen::deviations(items[k].form, 2, 1, items[k].first, [&](auto& pick) {
                int away = 0;
                for (auto p : pick) away += p != 0;
                if (away == 2 && !run::stop()) conform(gen::text(items[k].form, pick, gen::guards[g]), Accept);
            });
    });
    run::all("forms x deviations", items.size(), [&](size_t k) {
        uint64_t n = 0;
        gen::deviations(items[k].form, items[k].first < 0 ? 0 : depth, full, items[k].first, [&](auto& pick) {
            if (run::stop()) return;
            std::string t = gen::text(items[k].form, pick);
            conform(t, Accept);
            if (items[k].first == 2 && ++n == 57 && items[k].form % 20 == 3) run::sample(t);
        });
    });
    // complete products of the modifiers, over several settings of all other operands, and over all changes of one of them
    struct Part { int form; uint64_t b, e; };
    std::vector<Part> parts;
    uint64_t largest = 0;
    for (auto& f : forms) {
        uint64_t n = product_size(f.index);
        largest = std::max(largest, n);
        for (uint64_t b = 0; b < n; b += 5000) parts.push_back({f.index, b, std::min(n, b + 5000)});
    }
    run::all("complete modifier products", parts.size(), [&](size_t k) {
        const auto& ch = gen::choices()[parts[k].form];
        std::vector<uint32_t> pick(ch.size(), 0);
        auto put = [&](const char* guard) {
            if (!run::stop()) conform(gen::text(parts[k].form, pick, guard), Accept);
        };
        for (uint64_t x = parts[k].b; x < parts[k].e && !run::stop(); ++x) {
            uint64_t y = x;
            for (size_t i = 0; i < ch.size(); ++i)
                if (ch[i].modifier) pick[i] = uint32_t(y % ch[i].alt.size()), y /= ch[i].alt.size();
            for (uint32_t other = 0; other < 4; ++other) {
                for (size_t i = 0; i < ch.size(); ++i)
                    if (!ch[i].modifier) pick[i] = std::min(other, uint32_t(ch[i].core) - 1);
                put("");
                put(other % 2 ? "@!P5 " : "@P6 ");
            }
            for (size_t i = 0; i < ch.size(); ++i)
                if (!ch[i].modifier) pick[i] = 0;
            for (size_t i = 0; i < ch.size(); ++i) {
                if (ch[i].modifier) continue;
                const size_t n = run::thorough ? std::min<size_t>(ch[i].alt.size(), 40) : ch[i].core;
                for (size_t v = 1; v < n; ++v) {
                    pick[i] = uint32_t(v);
                    put("");
                }
                pick[i] = 0;
            }
        }
    });
    // operands that have several parts: every register or buffer index with every interesting offset
    struct Place { int form, op; };
    std::vector<Place> places;
    for (auto& f : forms)
        for (size_t i = 0; i < f.ops.size(); ++i)
            switch (f.ops[i].kind) {
            case model::Op::CBuf: case model::Op::Addr: case model::Op::AddrReg: case model::Op::LdcAddr: case model::Op::AttrImm: case model::Op::AttrPatch: case model::Op::AttrPhys:
                places.push_back({f.index, int(i)});
                break;
            default: break;
            }
    run::all("parts of operands", places.size() * 256, [&](size_t k) {
        const auto [form, op] = places[k / 256];
        const model::Operand& o = forms[form].ops[op];
        const int n = int(k % 256);
        const std::string reg = n == 255 ? "RZ" : "R" + std::to_string(n);
        auto put = [&](const std::string& operand) {
            if (!run::stop()) conform(gen::simplest(form, op, operand), Accept);
        };
        // offsets of a field of `bits` bits in units of 1 << shift; op: how the offset is joined to what precedes it
        auto offsets = [&](int bits, int shift, bool bare, auto fn) {
            const int64_t h = int64_t(1) << (bits + shift - 1), u = int64_t(1) << shift;
            std::vector<int64_t> v = {0, u, 2 * u, 3 * u, -u, -2 * u, -3 * u, h - u, -h, -h + u};
            for (int64_t b = 1; b < 2 * h; b *= 2) v.insert(v.end(), {b, -b, 2 * h - u - b, b - u, b + u, h - b, (h - u) ^ b});
            for (int64_t p : {0x5555555555, 0xAAAAAAAAAA, 0x3333333333, 0xCCCCCCCCCC}) v.push_back(p & (h - 1) & -u), v.push_back(-(p & (h - 1) & -u));
            std::sort(v.begin(), v.end());
            v.erase(std::unique(v.begin(), v.end()), v.end());
            for (int64_t x : v) {
                std::string a = std::to_string(x < 0 ? -x : x);
                fn(bare ? (x < 0 ? "-" + a : a) : (x < 0 ? "-" : "+") + a);
            }
        };
        switch (o.kind) {
        case model::Op::CBuf:
            if (n < 32) offsets(14, 2, true, [&](const std::string& x) { put("c[" + std::to_string(n) + "][" + x + "]"); });
            break;
        case model::Op::Addr:
            put("[" + reg + "]");
            offsets(o.b - o.c, o.c, false, [&](const std::string& x) { put("[" + reg + x + "]"); });
            if (!n) offsets(o.b - o.c, o.c, true, [&](const std::string& x) { put("[" + x + "]"); });
            break;
        case model::Op::AddrReg: put("[" + reg + "]"); break;
        case model::Op::LdcAddr:
            for (int b = 0; b < 32; ++b) {
                put("c[" + std::to_string(b) + "][" + reg + "]");
                if (b < 4 || n % 16 == 15) offsets(16, 0, false, [&](const std::string& x) { put("c[" + std::to_string(b) + "][" + reg + x + "]"); });
                if (!n) offsets(16, 0, true, [&](const std::string& x) { put("c[" + std::to_string(b) + "][" + x + "]"); });
            }
            break;
        case model::Op::AttrImm:
            for (int x = n * 4; x < n * 4 + 4; ++x) put("a[" + std::to_string(x) + "]");
            break;
        case model::Op::AttrPatch:
            offsets(11, 0, true, [&](const std::string& x) {
                put("a[" + reg + "+" + x + "]");
                put("a[" + reg + " " + x + "]");
            });
            break;
        case model::Op::AttrPhys: put("a[" + reg + "]"); break;
        default: break;
        }
    });
    // pairs of registers: which one is named twice must not matter
    run::all("pairs of registers", forms.size(), [&](size_t k) {
        std::vector<size_t> regs;
        const auto& ch = gen::choices()[k];
        for (size_t i = 0; i < ch.size(); ++i)
            if (forms[k].ops[i].kind == model::Op::Reg) regs.push_back(i);
        std::vector<uint32_t> pick(ch.size(), 0);
        for (size_t a = 0; a < regs.size(); ++a)
            for (size_t b = a + 1; b < regs.size(); ++b) {
                const auto &p = ch[regs[a]].alt, &q = ch[regs[b]].alt;
                for (uint32_t x = 0; x < p.size(); ++x)
                    for (uint32_t y = 0; y < q.size(); ++y) {
                        // all equal and neighbouring ones, and a grid (thorough: all)
                        const bool near = p[x].substr(0, p[x].find('.')) == q[y].substr(0, q[y].find('.')) || (x > y ? x - y : y - x) < 3;
                        if (!near && !run::thorough && (x % 16 || y % 16)) continue;
                        if (run::stop()) return;
                        pick[regs[a]] = x;
                        pick[regs[b]] = y;
                        conform(gen::text(int(k), pick), Accept);
                    }
                pick[regs[a]] = pick[regs[b]] = 0;
            }
        // all the same register
        for (uint32_t x = 0; x < 255 && !regs.empty(); ++x) {
            std::string t = "R" + std::to_string(x);
            for (size_t r : regs) {
                const auto& l = ch[r].alt;
                pick[r] = uint32_t(std::find(l.begin(), l.end(), t) - l.begin());
                if (pick[r] >= l.size()) pick[r] = 0;
            }
            conform(gen::text(int(k), pick), Accept);
        }
    });
    // the same register in two or more places, under all guards
    run::all("equal registers x guards", forms.size() * 16, [&](size_t k) {
        const int form = int(k / 16);
        const auto& g = gen::guards[k % 16 + 1];
        std::vector<size_t> regs;
        const auto& ch = gen::choices()[form];
        for (size_t i = 0; i < ch.size(); ++i)
            if (forms[form].ops[i].kind == model::Op::Reg) regs.push_back(i);
        std::vector<uint32_t> pick(ch.size(), 0);
        for (unsigned m = 1; m < 1u << std::min<size_t>(regs.size(), 5); ++m) {
            if (!(m & (m - 1))) continue;
            for (uint32_t x = 0; x < 256 && !run::stop(); ++x) {
                const std::string t = x == 255 ? "RZ" : "R" + std::to_string(x);
                for (size_t r = 0; r < regs.size(); ++r) {
                    const auto& l = ch[regs[r]].alt;
                    const auto at = std::find(l.begin(), l.end(), t);
                    pick[regs[r]] = m >> r & 1 && at != l.end() ? uint32_t(at - l.begin()) : 0;
                }
                conform(gen::text(form, pick, g), Accept);
            }
        }
    });
    run::bound("all 17 guards with two operands away from the default (one over all alternatives), and with the same register in every set of two or more places");
    run::bound("all " + std::to_string(forms.size()) + " forms; every operand choice alone under all 17 guards; up to " +
               std::to_string(depth) + " operands away from the default together (" + std::to_string(full) +
               " of them over all alternatives - all 256 registers, all predicates, all modifiers -, the others over 2-5)");
    run::bound("complete cross product of all modifiers of every form (up to " + std::to_string(largest) + " combinations), each with 4 settings of the other operands x 2 guards and with every " +
               std::string(run::thorough ? "(up to 40)" : "core") + " alternative of one other operand");
    run::bound(std::to_string(places.size()) + " constant-buffer, memory and attribute operands: every buffer index and register with 100 to 200 offsets (limits, all powers of two and their neighbours, patterns)");
    run::bound(std::string("pairs of registers: ") + (run::thorough ? "all" : "all equal and neighbouring ones and a grid of 16 x 16") + " for every two register operands of every form; all operands the same register");
}

} // namespace check
