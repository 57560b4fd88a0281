// C02: integer operands are encoded exactly or rejected.
#include "check.hpp"
#include <algorithm>
#include <set>

namespace check {
namespace {
using model::Op;

// A place where an integer is written.
struct Slot {
    int form, op;
    std::string pre, post;
    bool joined;      // directly after a register: needs an explicit sign
    int64_t min, max; // its range
    bool first;       // first slot of its kind: enumerated completely
};

std::vector<Slot> slots()
{
    std::vector<Slot> v;
    std::set<std::string> seen;
    for (auto& f : model::forms())
        for (size_t i = 0; i < f.ops.size(); ++i) {
            const auto& o = f.ops[i];
            auto put = [&](std::string pre, std::string post, bool joined, int64_t min, int64_t max) {
                std::string sig = std::to_string(int(o.kind)) + pre.substr(0, 3) + post + std::to_string(max);
                v.push_back({f.index, int(i), pre, post, joined, min, max, seen.insert(sig).second});
            };
            switch (o.kind) {
            case Op::UInt: put("", "", false, 0, int64_t((1ULL << o.a) - 1)); break;
            case Op::SInt: put("", "", false, -(int64_t(1) << (o.a - 1)), (int64_t(1) << (o.a - 1)) - 1); break;
            case Op::SImm20: put("", "", false, -524288, 524287); break;
            case Op::UImm20x: put("", "", false, 0, 1048575); break;
            case Op::Zero: put("", "", false, 0, 0); break;
            case Op::CBuf:
                put("c[", "][0x4]", false, 0, 31);
                put("c[0x1f][", "]", false, -32768, 32767);
                break;
            case Op::Addr: {
                int64_t h = int64_t(1) << (o.b - 1);
                put("[R2", "]", true, -h, h - 1);
                put("[", "]", false, 0, 2 * h - 1);
                put("[RZ", "]", true, 0, 2 * h - 1);
                put("[R2.reuse ", "]", false, -h, h - 1);
                put("[R2 ", "]", false, -h, h - 1);
                break;
            }
            case Op::LdcAddr:
                put("c[", "][R2+0x4]", false, 0, 31);
                put("c[0x1f][R2", "]", true, -32768, 32767);
                put("c[0x1f][", "]", false, 0, 65535);
                put("c[3][RZ ", "]", false, 0, 65535);
                break;
            case Op::AttrImm: put("a[", "]", false, 0, 1023); break;
            case Op::AttrPatch:
                put("a[R2", "]", true, -1024, 1023);
                put("a[R2+", "]", false, -1024, 1023);
                break;
            default: break;
            }
        }
    return v;
}

enum Spelling { Dec, Hex, HexUp, Oct, Plus, Zeros, Zeros99, OctZeros99, Zeros4000, SPELLINGS };

std::string spell(__int128 v, int how)
{
    bool neg = v < 0;
    unsigned __int128 m = neg ? -static_cast<unsigned __int128>(v) : static_cast<unsigned __int128>(v);
    unsigned base = how == Hex || how == HexUp || how == Zeros || how == Zeros99 || how == Zeros4000 ? 16 : how == Oct || how == OctZeros99 ? 8 : 10;
    std::string d;
    do {
        d += (how == HexUp ? "0123456789ABCDEF" : "0123456789abcdef")[unsigned(m % base)];
        m /= base;
    } while (m);
    if (how == Oct) d += "0";
    if (how == Zeros) d += "00000";
    if (how == Zeros99 || how == OctZeros99) d += std::string(99, '0');
    if (how == Zeros4000) d += std::string(4000, '0');
    std::reverse(d.begin(), d.end());
    if (how == Hex || how == Zeros || how == Zeros99 || how == Zeros4000) d = "0x" + d;
    if (how == HexUp) d = "0X" + d;
    return (neg ? "-" : how == Plus ? "+" : "") + d;
}

std::vector<__int128> patterns(int64_t min, int64_t max)
{
    std::set<__int128> s;
    auto near = [&](__int128 v) {
        for (int d = -4; d <= 4; ++d) s.insert(v + d);
    };
    near(0);
    near(min);
    near(max);
    near(__int128(max) + 1 + max);
    near(-__int128(max) - 1);
    for (int k = 0; k < 66; ++k) {
        __int128 b = __int128(1) << k;
        for (int d = -1; d <= 1; ++d) s.insert(b + d), s.insert(-b + d);
        for (int j = 0; j < k && k < 34; ++j) {
            s.insert(b | (__int128(1) << j));
            s.insert(-(b | (__int128(1) << j)));
            s.insert(b * 2 - 1 - (__int128(1) << j));
        }
    }
    for (__int128 m : {__int128(min), __int128(max)})
        for (int k = 30; k < 65; ++k) s.insert(m + (__int128(1) << k)), s.insert(m - (__int128(1) << k));
    for (uint64_t m : {0x5555555555555555ULL, 0xAAAAAAAAAAAAAAAAULL})
        for (int k = 2; k <= 64; ++k) s.insert(m >> (64 - k));
    return {s.begin(), s.end()};
}

void one(const Slot& s, __int128 v, int how)
{
    std::string n = spell(v, how);
    if (s.joined && n[0] != '+' && n[0] != '-') n = "+" + n;
    conform(gen::simplest(s.form, s.op, s.pre + n + s.post), Accept | Reject, "integer operand");
}
} // namespace

void c02()
{
    const std::vector<Slot> all = slots();
    static const char* const bad[] = {
        "0x", "0X", "08", "09", "0778", "1x", "0xg", "12ab", "0xx1", "x1", "--5", "-+5", "0x-5", "1+2", "5-", "1-", "0x10000000000000000",
        "18446744073709551616", "99999999999999999999999999", "-9223372036854775809", "9223372036854775808",
        "-99999999999999999999", "-18446744073709551615", "-18446744073709551616", "-18446744073709551617", "18446744073709551617", "-0x10000000000000001", "0x10000000000000001", "0x100000000000000000000000000000001", "340282366920938463463374607431768211457", "-0x8000000000000001", "-0xffffffffffffffff", "02000000000000000000001", "0x8000000000000000", "0xffffffffffffffff", "01777777777777777777777", "-0x8000000000000000",
        "0x7fffffffffffffff", "00000000000000000000000000000000001", "-0", "+0", "0x0000000000000000000000000000001", "1.0", "1.5", "0.0", "-1.0", "1e1", "1E1", "INF", "R1", "P1", "a"};
    run::all("bit patterns and spellings", all.size(), [&](size_t k) {
        const Slot& s = all[k];
        int extra = 0;
        for (__int128 v : patterns(s.min, s.max))
            if (!run::stop()) {
                one(s, v, Hex);
                one(s, v, Dec);
                bool close = v >= s.min - 8 && v <= __int128(s.max) + 8;
                for (int how = HexUp; how < SPELLINGS; ++how)
                    if (how == Zeros4000 ? close : close || run::thorough || ++extra % 7 == 0) one(s, v, how);
            }
        for (const char* b : bad) {
            if (run::stop()) break;
            conform(gen::simplest(s.form, s.op, s.pre + (s.joined && b[0] != '-' && b[0] != '+' ? "+" : "") + b + s.post),
                    Accept | Reject, "integer operand");
        }
        if (k % 60 == 1) run::sample(gen::simplest(s.form, s.op, s.pre + spell(s.max, Hex) + s.post));
    });
    // every value of the field, and as many on either side of the range
    struct Part { int slot; int64_t b, e; };
    std::vector<Part> parts;
    uint64_t whole = 0;
    for (size_t k = 0; k < all.size(); ++k) {
        const Slot& s = all[k];
        int64_t size = s.max - s.min + 1;
        bool do_it = size <= 70000 || (s.first && size <= (run::thorough ? 1 << 24 : 1 << 20)) ||
                     (run::thorough && size <= 1 << 20);
        if (!do_it) continue;
        ++whole;
        int64_t margin = std::min<int64_t>(size, run::thorough ? 1 << 16 : 1 << 12);
        for (int64_t b = s.min - margin; b < s.max + margin; b += 1 << 14)
            parts.push_back({int(k), b, std::min<int64_t>(s.max + margin, b + (1 << 14))});
    }
    run::all("all values of a field", parts.size(), [&](size_t k) {
        const Part& p = parts[k];
        const Slot& s = all[p.slot];
        for (int64_t v = p.b; v < p.e && !run::stop(); ++v) one(s, v, v & 4 ? Dec : Hex);
    });
    // numbers next to every other choice and under every guard
    run::all("limits x other operands", all.size(), [&](size_t k) {
        const Slot& s = all[k];
        std::vector<int64_t> v = {s.min - 4, s.min - 1, s.min, s.min + 1, s.min + 4, -4, -1, 0, 1, 4, s.max / 2, s.max / 2 + 1, s.max - 4, s.max - 3, s.max - 1, s.max, s.max + 1, s.max + 4, 2 * s.max + 1, 2 * s.max + 2};
        std::sort(v.begin(), v.end());
        v.erase(std::unique(v.begin(), v.end()), v.end());
        auto put = [&](const std::vector<uint32_t>& pick, const std::string& guard) {
            for (int64_t x : v) {
                if (run::stop()) return;
                std::string n = spell(x, Hex);
                if (s.joined && n[0] != '-') n = "+" + n;
                conform(gen::text(s.form, pick, guard, s.op, s.pre + n + s.post), Accept | Reject, "integer operand");
            }
        };
        for (auto& g : gen::guards) put(std::vector<uint32_t>(gen::choices()[s.form].size(), 0), g);
        gen::deviations(s.form, run::thorough ? 3 : 2, 1, -1, [&](auto& pick) {
            if (!pick[size_t(s.op)]) put(pick, "");
        });
    });
    run::bound("20 values around the limits of every position together with all guards, and with up to " + std::string(run::thorough ? "three" : "two") + " other operands away from their default");
    // constant buffers: every index with many offsets, and every register
    run::all("index x offset", all.size() * 32, [&](size_t k) {
        const Slot& s = all[k / 32];
        if (s.pre.compare(0, 2, "c[") || s.pre == "c[") return;
        const std::string pre = "c[" + std::to_string(k % 32) + s.pre.substr(s.pre.find(']'));
        for (__int128 x : patterns(s.min, s.max)) {
            if (run::stop()) return;
            if (x < 2 * __int128(s.min) - 8 || x > 2 * __int128(s.max) + 8) continue;
            std::string n = spell(x, Hex);
            if (s.joined && n[0] != '-') n = "+" + n;
            conform(gen::simplest(s.form, s.op, pre + n + s.post), Accept | Reject, "integer operand");
        }
    });
    run::bound("constant buffers: all 32 indices with all one- and two-bit offsets and limits");
    run::bound(std::to_string(all.size()) + " integer positions in " + std::to_string(model::forms().size()) +
               " forms: all values with at most two bits set or one cleared, range limits +-4, powers of two up to 2^65 +-1, ten spellings (up to 4000 leading zeros), malformed literals");
    run::bound("all values of the range and as many (at most " + std::string(run::thorough ? "65536" : "4096") + ") outside on either side for " + std::to_string(whole) + " of them");
}

} // namespace check
