// C03: floating-point operands are converted per IEEE and keep their sign.
#include "check.hpp"
#include <algorithm>
#include <bit>
#include <cmath>
#include <cstring>
#include <set>

namespace check {
namespace {
using model::Op;

struct Slot { int form, op; Op kind; bool first; };

std::vector<Slot> slots()
{
    std::vector<Slot> v;
    std::set<int> seen;
    for (auto& f : model::forms())
        for (size_t i = 0; i < f.ops.size(); ++i) {
            Op k = f.ops[i].kind;
            if (k == Op::F20 || k == Op::F32 || k == Op::D20 || k == Op::H9 || k == Op::H16)
                v.push_back({f.index, int(i), k, seen.insert(int(k)).second});
        }
    return v;
}

// Exact decimal spelling of a double (every double has one).
std::string exact(double d)
{
    char b[1400];
    std::snprintf(b, sizeof b, "%.1080f", d);
    size_t n = std::strlen(b);
    while (b[n - 1] == '0' && b[n - 2] != '.') --n;
    return std::string(b, n);
}
// Literals around a float: the value itself, halfway to its neighbour, just below and above halfway.
void around(float f, const std::function<void(const std::string&)>& fn)
{
    fn(exact(f));
    float up = std::nextafterf(f, INFINITY);
    double mid = std::isinf(up) ? double(f) + std::ldexp(1.0, 103) : (double(f) + double(up)) / 2;
    std::string m = exact(mid);
    fn(m);
    fn(m + "0001");
    fn(m + "000000000000000000000000000000000000000000000000000001");
    fn(exact(std::nextafter(mid, 0.0)));
    fn(exact(std::nextafter(mid, 1e300)));
}

void one(const Slot& s, const std::string& lit) { conform(gen::simplest(s.form, s.op, lit), Accept | Reject, "floating-point operand"); }
void both(const Slot& s, const std::string& lit)
{
    one(s, lit);
    one(s, "-" + lit);
}
} // namespace

void c03()
{
    const std::vector<Slot> all = slots();
    // special values, spellings and interesting magnitudes, in every position
    run::all("special values in every position", all.size(), [&](size_t k) {
        const Slot& s = all[k];
        auto put = [&](const std::string& t) { if (!run::stop()) one(s, t); };
        for (const char* t : {"INF", "+INF", "-INF", "QNAN", "+QNAN", "-QNAN", "- INF", "+ QNAN", "inf", "NAN", "--INF", "-+INF", "SNAN",
                              "0.0", "-0.0", "+0.0", "0.", "-0.", "00.0", "1.", "01.50", "+1.5", "-1.5", "1.5.5", ".5", "-.5", "1.5f", "1.5e3",
                              "1e5", "0x1.8p1", "1.50000000000000000000000000000000000000000000000000000000000", "1..5", "1.5-", "1.5+",
                              "99999999999999999999999999999999999999999999999999999.0", "-99999999999999999999999999999999999999999999.0",
                              "0.000000000000000000000000000000000000000000000000000000000001", "-0.00000000000000000000000000000000000000000000000001"})
            put(t);
        for (int e = -150; e <= 128; ++e) { // every binade: first, last, and in between
            double b = std::ldexp(1.0, e);
            for (double m : {1.0, 1.5, 1.25, 1.75, 2 - std::ldexp(1.0, -23), 2 - std::ldexp(1.0, -24), 2 - std::ldexp(1.0, -25), 1 + std::ldexp(1.0, -11),
                             1 + std::ldexp(1.0, -24), 1 + 3 * std::ldexp(1.0, -11), 1 + std::ldexp(1.0, -12), 1 + std::ldexp(1.0, -5), 2 - std::ldexp(1.0, -11)}) {
                put(exact(b * m));
                put("-" + exact(b * m));
            }
        }
        // integers
        for (int e = 0; e < 63; ++e)
            for (int j = 0; j <= e; ++j) {
                int64_t v = (int64_t(1) << e) + (j == e ? 0 : int64_t(1) << j);
                put(std::to_string(v));
                put(std::to_string(-v));
                put(std::to_string(v - 1));
            }
        for (int64_t d = -3; d <= 3; ++d)
            for (int64_t v : {int64_t(16777216), int64_t(33554432), int64_t(2048), int64_t(65504), int64_t(65520), int64_t(65536), int64_t(0)}) {
                put(std::to_string(v + d));
                put(std::to_string(-v + d));
            }
        // integers around and beyond the 64-bit range, in every base
        for (int b = 60; b <= 140; ++b) {
            auto spell = [&](unsigned __int128 v, int shift, unsigned base) { // v << shift
                std::string digits;
                std::vector<unsigned> big;
                for (int i = 0; i < 8; ++i) big.push_back(unsigned(v >> (16 * i) & 0xffff));
                for (int i = 0; i < shift; ++i) {
                    unsigned carry = 0;
                    for (unsigned& x : big) x = x * 2 + carry, carry = x >> 16, x &= 0xffff;
                    if (carry) big.push_back(carry);
                }
                while (std::any_of(big.begin(), big.end(), [](unsigned x) { return x; })) {
                    unsigned r = 0;
                    for (size_t i = big.size(); i--;) r = r << 16 | big[i], big[i] = r / base, r %= base;
                    digits += "0123456789abcdef"[r];
                }
                return std::string(digits.rbegin(), digits.rend());
            };
            for (int d = -1; d <= 1; ++d) {
                const unsigned __int128 v = ((unsigned __int128)(1) << std::min(b, 120)) + (unsigned __int128)(__int128(d));
                const int shift = b - std::min(b, 120);
                for (const char* sign : {"", "-", "+"}) {
                    put(sign + spell(v, shift, 10));
                    put(sign + ("0x" + spell(v, shift, 16)));
                    put(sign + ("0" + spell(v, shift, 8)));
                }
            }
        }
        for (const char* t : {"9223372036854775807", "-9223372036854775808", "0x7fffff8000000000", "0x7fffffc000000000", "0x10", "017"}) put(t);
        if (k % 9 == 0) run::sample(gen::simplest(s.form, s.op, exact(std::ldexp(1.5, -20))));
    });
    // values next to every other choice and under every guard
    run::all("values x other operands", all.size(), [&](size_t k) {
        const Slot& s = all[k];
        static const char* const v[] = {"1.0", "-1.0", "1.9999998807907104", "-1.9999998807907104", "0.1", "-0.0", "0.0", "65504.0", "-65520.0", "0.00000006", "INF", "-INF", "QNAN", "-QNAN", "3", "-3", "16777217", "1.0009765625", "1.00048828125", "99999999999999999999999999999999999999999.0"};
        auto put = [&](const std::vector<uint32_t>& pick, const std::string& guard) {
            for (const char* x : v)
                if (!run::stop()) conform(gen::text(s.form, pick, guard, s.op, x), Accept | Reject, "floating-point operand");
        };
        for (auto& g : gen::guards) put(std::vector<uint32_t>(gen::choices()[s.form].size(), 0), g);
        gen::deviations(s.form, run::thorough ? 3 : 2, 1, -1, [&](auto& pick) {
            if (!pick[size_t(s.op)]) put(pick, "");
        });
        // complete products of the modifiers
        const auto& ch = gen::choices()[s.form];
        uint64_t n = 1;
        for (size_t i = 0; i < ch.size(); ++i)
            if (ch[i].modifier) n *= ch[i].alt.size();
        std::vector<uint32_t> pick(ch.size(), 0);
        for (uint64_t x = 0; x < n && n < 1000000; ++x) {
            uint64_t y = x;
            for (size_t i = 0; i < ch.size(); ++i)
                if (ch[i].modifier) pick[i] = uint32_t(y % ch[i].alt.size()), y /= ch[i].alt.size();
            put(pick, x % 2 ? "@!P3 " : "");
        }
    });
    run::bound("20 values in every position with all guards, with up to " + std::string(run::thorough ? "three" : "two") + " other operands away from their default, and with the complete product of the modifiers");
    // complete sweeps, one position per kind (all positions when thorough)
    struct Part { int slot; uint32_t b, e; };
    std::vector<Part> sweep;
    for (size_t k = 0; k < all.size(); ++k)
        if (all[k].first || run::thorough)
            for (uint32_t b = 0; b < 0x7C00; b += 0x200) sweep.push_back({int(k), b, b + 0x200});
    run::all("all half values, midpoints and neighbours", sweep.size(), [&](size_t k) {
        const Slot& s = all[sweep[k].slot];
        for (uint32_t h = sweep[k].b; h < sweep[k].e && !run::stop(); ++h) {
            double v = double(std::bit_cast<_Float16>(uint16_t(h)));
            double n = h == 0x7BFF ? 65536.0 : double(std::bit_cast<_Float16>(uint16_t(h + 1)));
            double mid = (v + n) / 2;
            both(s, exact(v));
            both(s, exact(mid));
            both(s, exact(std::nextafterf(float(mid), 0.0f)));
            both(s, exact(std::nextafterf(float(mid), INFINITY)));
            both(s, exact(mid) + "00000000000001");
        }
    });
    std::vector<Part> bits;
    const uint32_t step = run::thorough ? 1 << 8 : 1 << 12; // 2^19 or 2^23 positive floats
    for (size_t k = 0; k < all.size(); ++k)
        if (all[k].first)
            for (uint32_t b = 0; b < 0x7F800000u; b += step << 10) bits.push_back({int(k), b, std::min(0x7F800000u, b + (step << 10))});
    run::all("all leading bit patterns of binary32", bits.size(), [&](size_t k) {
        const Slot& s = all[bits[k].slot];
        for (uint32_t b = bits[k].b; b < bits[k].e && !run::stop(); b += step) {
            float f = std::bit_cast<float>(b), last = std::bit_cast<float>(b + step - 1);
            one(s, (b & step ? "-" : "") + exact(f));
            one(s, (b & step ? "" : "-") + exact(last));
        }
    });
    // rounding of the decimal literal itself
    run::all("decimal rounding ties of binary32", 256 * 5, [&](size_t k) {
        const Slot* s = nullptr;
        const Op kinds[] = {Op::F32, Op::F20, Op::D20, Op::H16, Op::H9};
        for (auto& x : all)
            if (x.first && x.kind == kinds[k / 256]) s = &x;
        if (!s) return;
        const uint32_t e = uint32_t(k % 256);
        if (e == 255) return;
        for (uint32_t m : {0u, 1u, 2u, 3u, 0x7FFFFFu, 0x7FFFFEu, 0x400000u, 0x3FFFFFu, 0x555555u, 0x2AAAAAu, 0x1000u, 0xFFFu, 0x1FFFu, 0x2000u})
            around(std::bit_cast<float>(e << 23 | m), [&](const std::string& t) {
                if (!run::stop()) both(*s, t);
            });
    });
    run::bound(std::to_string(all.size()) + " floating-point positions: special values, malformed literals, 13 significands in every binade 2^-150..2^128, all integers with at most two bits set, integers around 2^60..2^140 in three bases");
    run::bound("per operand kind: all finite half values with midpoints and neighbours; " + std::string(run::thorough ? "2^24" : "2^20") +
               " binary32 values covering all leading bit patterns; halfway literals between neighbouring binary32 values in every binade");
}

} // namespace check
