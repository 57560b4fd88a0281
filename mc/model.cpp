#include "model.hpp"
#include <algorithm>
#include <bit>
#include <charconv>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <optional>
#include <stdexcept>

namespace model {

extern const char* const isa_text; // isa_text.cpp, generated from isa.txt

static std::vector<std::string> split(std::string_view s, char sep)
{
    std::vector<std::string> out;
    size_t b = 0;
    while (true) {
        size_t e = s.find(sep, b);
        out.emplace_back(s.substr(b, e == s.npos ? s.npos : e - b));
        if (e == s.npos) return out;
        b = e + 1;
    }
}

static std::vector<std::string> names_of(const std::string& s)
{
    auto v = split(s, '/');
    for (auto& n : v)
        if (n == "_") n.clear();
    return v;
}

static Operand parse_operand(const std::string& src)
{
    Operand o{};
    if (src == ",") {
        o.kind = Op::Comma;
        return o;
    }
    std::string name = src;
    std::vector<std::string> arg;
    if (size_t p = src.find('('); p != src.npos) {
        name = src.substr(0, p);
        arg = split(std::string_view(src).substr(p + 1, src.size() - p - 2), ';');
    }
    auto num = [&](size_t i) { return std::stoi(arg.at(i)); };
    static const std::unordered_map<std::string, Op> kinds = {
        {"flag", Op::Flag}, {"mod", Op::Mod}, {"word", Op::Word}, {"lit", Op::Lit}, {"optlit", Op::OptLit},
        {"const", Op::Const}, {"imp", Op::Imp}, {"reg", Op::Reg}, {"mirror", Op::Mirror}, {"pred", Op::Pred},
        {"predinv", Op::PredInv}, {"neg", Op::Neg}, {"tilde", Op::Tilde}, {"abs", Op::Abs}, {"endabs", Op::EndAbs},
        {"po", Op::Po}, {"po_neg", Op::PoNeg}, {"po_post_neg", Op::PoPostNeg}, {"uint", Op::UInt}, {"sint", Op::SInt},
        {"simm20", Op::SImm20}, {"uimm20x", Op::UImm20x}, {"f20", Op::F20}, {"f32", Op::F32}, {"d20", Op::D20},
        {"h9", Op::H9}, {"h16", Op::H16}, {"cbuf", Op::CBuf}, {"addr", Op::Addr}, {"addr_reg", Op::AddrReg},
        {"ldc_addr", Op::LdcAddr}, {"attr_imm", Op::AttrImm}, {"attr_patch", Op::AttrPatch}, {"attr_phys", Op::AttrPhys},
        {"xmad_signs", Op::XmadSigns}, {"f2f_round", Op::F2fRound}, {"fmt", Op::Fmt}, {"sel16", Op::Sel16},
        {"vfmt", Op::VFmt}, {"vsel", Op::VSel}, {"atomic_size", Op::AtomicSize}, {"ldg_size", Op::LdgSize},
        {"s2r", Op::S2r}, {"texs_mode", Op::TexsMode}, {"texs_type", Op::TexsType}, {"tlds_lod", Op::TldsLod},
        {"tlds_aoffi", Op::TldsAoffi}, {"tlds_ms", Op::TldsMs}, {"tlds_type", Op::TldsType}, {"swizzle", Op::Swizzle},
        {"zero", Op::Zero}, {"label", Op::Label}, {"flow_opt", Op::FlowOpt}, {"flow_req", Op::FlowReq},
    };
    auto it = kinds.find(name);
    if (it == kinds.end()) throw std::runtime_error("isa.txt: " + src);
    o.kind = it->second;
    switch (o.kind) {
    case Op::Flag: o.text = arg.at(0); o.a = num(1); break;
    case Op::Mod:
        o.names = names_of(arg.at(0));
        o.a = num(1);
        if (arg.at(2) == "req") o.required = true;
        else o.dflt = std::stoull(arg.at(2));
        break;
    case Op::Word: o.names = names_of(arg.at(0)); o.a = num(1); break;
    case Op::Lit: o.text = arg.at(0); o.bits = std::stoull(arg.at(1), nullptr, 16); break;
    case Op::OptLit: case Op::Imp: o.text = arg.at(0); break;
    case Op::Const: o.bits = std::stoull(arg.at(0), nullptr, 16); break;
    case Op::Fmt: o.names = names_of(arg.at(0)); o.names2 = names_of(arg.at(1)); o.a = num(2); o.b = num(3); break;
    default:
        if (arg.size() > 0) o.a = num(0);
        if (arg.size() > 1) o.b = num(1);
        if (arg.size() > 2) o.c = num(2);
    }
    return o;
}

const std::vector<Form>& forms()
{
    static const std::vector<Form> all = [] {
        std::vector<Form> v;
        for (const std::string& line : split(isa_text, '\n')) {
            if (line.empty() || line[0] == '#') continue;
            auto w = split(line, ' ');
            Form f;
            f.opcode = std::stoull(w.at(0), nullptr, 16);
            f.nopred = w.at(1) == "NOPRED";
            f.mnemonic = w.at(2);
            for (size_t i = 3; i < w.size(); ++i) f.ops.push_back(parse_operand(w[i]));
            f.index = int(v.size());
            v.push_back(std::move(f));
        }
        return v;
    }();
    return all;
}

static const std::unordered_map<std::string_view, std::vector<const Form*>>& by_mnemonic()
{
    static const auto map = [] {
        std::unordered_map<std::string_view, std::vector<const Form*>> m;
        for (const Form& f : forms()) m[f.mnemonic].push_back(&f);
        return m;
    }();
    return map;
}

const std::vector<std::string>& mnemonics()
{
    static const std::vector<std::string> v = [] {
        std::vector<std::string> r;
        for (const Form& f : forms())
            if (std::find(r.begin(), r.end(), f.mnemonic) == r.end()) r.push_back(f.mnemonic);
        return r;
    }();
    return v;
}

const std::vector<std::string>& flow_tests()
{
    static const std::vector<std::string> v = split(
        "F/LT/EQ/LE/GT/NE/GE/NUM/NAN/LTU/EQU/LEU/GTU/NEU/GEU/T/OFF/LO/SFF/LS/HI/SFT/HS/OFT/CSM_TA/CSM_TR/CSM_MX/"
        "FCSM_TA/FCSM_TR/FCSM_MX/RLE/RGT", '/');
    return v;
}

const std::vector<std::string>& system_registers()
{
    static const std::vector<std::string> v = [] {
        std::vector<std::string> r(256);
        for (int i = 0; i < 256; ++i) r[i] = "SR" + std::to_string(i);
        const char* low[] = {
            "SR_LANEID", "SR_CLOCK", "SR_VIRTCFG", "SR_VIRTID", "SR_PM0", "SR_PM1", "SR_PM2", "SR_PM3", "SR_PM4",
            "SR_PM5", "SR_PM6", "SR_PM7", "SR12", "SR13", "SR14", "SR_ORDERING_TICKET", "SR_PRIM_TYPE",
            "SR_INVOCATION_ID", "SR_Y_DIRECTION", "SR_THREAD_KILL", "SM_SHADER_TYPE", "SR_DIRECTCBEWRITEADDRESSLOW",
            "SR_DIRECTCBEWRITEADDRESSHIGH", "SR_DIRECTCBEWRITEENABLED", "SR_MACHINE_ID_0", "SR_MACHINE_ID_1",
            "SR_MACHINE_ID_2", "SR_MACHINE_ID_3", "SR_AFFINITY", "SR_INVOCATION_INFO", "SR_WSCALEFACTOR_XY",
            "SR_WSCALEFACTOR_Z", "", "", "", "", "SR_CTA_PARAM", "", "", "", "SR_NTID", "SR_CirQueueIncrMinusOne",
            "SR_NLATC", "SR43", "SR_SM_SPA_VERSION", "SR_MULTIPASSSHADERINFO", "SR_LWINHI", "SR_SWINHI", "SR_SWINLO",
            "SR_SWINSZ", "SR_SMEMSZ", "SR_SMEMBANKS", "SR_LWINLO", "SR_LWINSZ", "SR_LMEMLOSZ", "SR_LMEMHIOFF",
            "SR_EQMASK", "SR_LTMASK", "SR_LEMASK", "SR_GTMASK", "SR_GEMASK", "SR_REGALLOC", "SR_BARRIERALLOC", "SR63",
            "SR_GLOBALERRORSTATUS", "SR65", "SR_WARPERRORSTATUS", "SR_WARPERRORSTATUSCLEAR", "SR68", "SR69", "SR70",
            "SR71", "SR_PM_HI0", "SR_PM_HI1", "SR_PM_HI2", "SR_PM_HI3", "SR_PM_HI4", "SR_PM_HI5", "SR_PM_HI6",
            "SR_PM_HI7", "SR_CLOCKLO", "SR_CLOCKHI", "SR_GLOBALTIMERLO", "SR_GLOBALTIMERHI"};
        for (size_t i = 0; i < std::size(low); ++i) r[i] = low[i];
        r[96] = "SR_HWTASKID";
        r[97] = "SR_CIRCULARQUEUEENTRYINDEX";
        r[98] = "SR_CIRCULARQUEUEENTRYADDRESSLOW";
        r[99] = "SR_CIRCULARQUEUEENTRYADDRESSHIGH";
        return r;
    }();
    return v;
}

// ---------------------------------------------------------------- lexer

static bool space(char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n'; }
static bool punct(char c) { return c != 0 && std::strchr("+-~|[]@,;", c) != nullptr; }
static bool digit(char c) { return c >= '0' && c <= '9'; }
static bool delim(char c) { return c == 0 || c == '.' || space(c) || punct(c); }

bool parse_float32(std::string_view s, float& out)
{
    // [+-] digits . [digits]
    size_t i = 0;
    bool neg = false;
    if (i < s.size() && (s[i] == '+' || s[i] == '-')) neg = s[i++] == '-';
    size_t d = i;
    while (i < s.size() && digit(s[i])) ++i;
    if (i == d || i >= s.size() || s[i] != '.') return false;
    for (++i; i < s.size(); ++i)
        if (!digit(s[i])) return false;
    const char* b = s.data() + d;
    const char* e = s.data() + s.size();
    float v = 0;
    auto r = std::from_chars(b, e, v, std::chars_format::fixed);
    if (r.ec == std::errc::result_out_of_range) {
        bool nonzero_int = false;
        for (const char* p = b; p != e && *p != '.'; ++p) nonzero_int |= *p != '0';
        v = nonzero_int ? INFINITY : 0.0f;
    } else if (r.ec != std::errc{} || (r.ptr != e && !(r.ptr + 1 == e && *r.ptr == '.'))) {
        return false;
    }
    out = neg ? -v : v;
    return true;
}

static bool parse_int(std::string_view s, int64_t& out)
{
    size_t i = 0;
    bool neg = false;
    if (i < s.size() && (s[i] == '+' || s[i] == '-')) neg = s[i++] == '-';
    if (i == s.size() || !digit(s[i])) return false;
    int base = 10;
    if (s[i] == '0' && i + 1 < s.size()) {
        if (s[i + 1] == 'x' || s[i + 1] == 'X') base = 16, i += 2;
        else if (s[i + 1] == 'b' || s[i + 1] == 'B') base = 2, i += 2;
        else base = 8, i += 1;
        if (i == s.size()) return false;
    }
    unsigned __int128 v = 0;
    for (; i < s.size(); ++i) {
        char c = s[i];
        int d = digit(c) ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99;
        if (d >= base) return false;
        v = v * base + d;
        if (v >> 64) return false;
    }
    unsigned __int128 limit = (static_cast<unsigned __int128>(1) << 63) - (neg ? 0 : 1);
    if (v > limit) return false;
    out = neg ? static_cast<int64_t>(-static_cast<uint64_t>(v)) : static_cast<int64_t>(v);
    return true;
}

std::vector<Tok> lex(std::string_view text)
{
    if (size_t z = text.find('\0'); z != text.npos) text = text.substr(0, z);
    std::vector<Tok> out;
    int line = 1, col = 1;
    size_t p = 0;
    auto at = [&](size_t i) { return i < text.size() ? text[i] : '\0'; };
    auto step = [&](size_t to) {
        for (; p < to; ++p) {
            if (text[p] == '\n') ++line, col = 1;
            else col += text[p] == '\t' ? 4 : 1;
        }
    };
    while (true) {
        while (space(at(p))) step(p + 1);
        Tok t;
        t.line = line;
        t.col = col;
        t.beg = p;
        if (p >= text.size()) {
            t.t = T::End;
            out.push_back(t);
            return out;
        }
        char c = at(p);
        if (punct(c) && !((c == '+' || c == '-') && digit(at(p + 1)))) {
            t.t = T::Punct;
            t.ch = c;
            t.s = text.substr(p, 1);
            step(p + 1);
            out.push_back(t);
            continue;
        }
        auto bad = [&] {
            t.t = T::Bad;
            out.push_back(t);
        };
        // extent of the word
        size_t e = p + 1;
        while (!delim(at(e))) ++e;
        if (digit(c) || c == '+' || c == '-') {
            if (!(digit(c) && at(p + 1) == 'D')) {
                size_t q = p;
                bool hex = false;
                while (digit(at(q)) || at(q) == '+' || at(q) == '-' ||
                       (at(q) && std::strchr("AaBbCcDdEeFfXx", at(q)))) {
                    hex |= at(q) && std::strchr("AaBbCcDdEeFfXx", at(q));
                    ++q;
                }
                bool flt = false;
                if (at(q) == '.') {
                    if (hex) {
                        bad();
                        return out;
                    }
                    flt = true;
                    ++q;
                    while (digit(at(q))) ++q;
                }
                if (!delim(at(q))) {
                    bad();
                    return out;
                }
                t.s = text.substr(p, q - p);
                if (flt ? !parse_float32(t.s, t.f) : !parse_int(t.s, t.i)) {
                    bad();
                    return out;
                }
                t.t = flt ? T::Float : T::Int;
                step(q);
                out.push_back(t);
                continue;
            }
        }
        std::string_view w = text.substr(p, e - p);
        t.s = w;
        t.t = T::Ident;
        if (w[0] == '!' && (w.size() < 2 || (w[1] != 'P' && w[1] != 'p'))) {
            bad();
            return out;
        }
        if (w[0] == '!' || w[0] == 'P' || w[0] == 'p') {
            std::string_view r = w.substr(w[0] == '!' ? 2 : 1);
            if (r.size() == 1 && (r[0] == 'T' || r[0] == 't' || digit(r[0]))) {
                t.t = T::Pred;
                t.neg = w[0] == '!';
                t.i = digit(r[0]) ? r[0] - '0' : 7;
                if (digit(r[0]) && t.i > 6) {
                    bad();
                    return out;
                }
            }
        } else if (w[0] == 'R' && w.size() > 1) {
            if (w[1] == 'Z') {
                if (w.size() > 2) {
                    bad();
                    return out;
                }
                t.t = T::Reg;
                t.i = 255;
            } else if (std::all_of(w.begin() + 1, w.end(), digit)) {
                int64_t v = 0;
                for (char d : w.substr(1)) v = std::min<int64_t>(v * 10 + (d - '0'), 100000);
                if (v > 254) {
                    bad();
                    return out;
                }
                t.t = T::Reg;
                t.i = v;
            }
        }
        step(e);
        if (t.t == T::Ident && w.back() == ':') continue; // label marker
        out.push_back(t);
    }
}

// ---------------------------------------------------------------- instructions

using Labels = std::unordered_map<std::string_view, int64_t>;

uint16_t half_of(float f)
{
    if (std::isnan(f)) return uint16_t((std::signbit(f) ? 0x8000 : 0) | 0x7FFF);
    _Float16 h = static_cast<_Float16>(f);
    return std::bit_cast<uint16_t>(h);
}

uint64_t steps = 0;

namespace {
struct Parser {
    const std::vector<Tok>& t;
    size_t p;
    uint64_t w = 0;
    uint32_t reuse = 0;
    int64_t pc;
    const Labels& labels;
    std::vector<Pos>& where;
    std::string* key;
    // semantic state
    uint8_t regs[64] = {};
    uint64_t fields[64] = {}; // values of modifiers by position
    bool po = false, negated = false;
    int lod = 0;              // TEXS: 0 none, 1 LL, 2 LZ; TLDS: 1 LL
    bool dc = false, aoffi = false, ms = false;

    const Tok& cur() const { return t[p]; }
    size_t items = 0;   // parts that were matched, modifiers and commas included; 1000 more for all of them
    size_t stopped = 0; // token at which this form stops being legal
    bool fail(size_t i)
    {
        stopped = i;
        where.push_back({t[i].line, t[i].col});
        return false;
    }
    bool fail() { return fail(p); }
    void k(std::string_view s)
    {
        if (key) key->append(s), key->push_back(' ');
    }
    void k(char c, int64_t v)
    {
        if (key) key->push_back(c), key->append(std::to_string(v)), key->push_back(' ');
    }
    bool is(std::string_view s) const { return cur().t == T::Ident && cur().s == s; }
    bool isp(char c) const { return cur().t == T::Punct && cur().ch == c; }
    bool expect(char c)
    {
        if (!isp(c)) return fail();
        ++p;
        return true;
    }
    std::optional<uint64_t> lookup(const std::vector<std::string>& names, bool dot)
    {
        if (cur().t != T::Ident) return {};
        std::string_view s = cur().s;
        if (dot) {
            if (s.empty() || s[0] != '.') return {};
            s.remove_prefix(1);
        }
        if (s.empty()) return {};
        for (size_t i = 0; i < names.size(); ++i)
            if (names[i] == s) return i;
        return {};
    }
    bool integer(int64_t min, int64_t max, int64_t& v)
    {
        if (cur().t != T::Int || cur().i < min || cur().i > max) return fail();
        v = cur().i;
        ++p;
        return true;
    }
    bool reg(int a)
    {
        if (cur().t != T::Reg) return fail();
        uint8_t r = uint8_t(cur().i);
        regs[a] = r;
        w |= uint64_t(r) << a;
        k('R', r);
        ++p;
        if (is(".reuse")) {
            int bit = a == 8 ? 0 : a == 20 ? 1 : a == 39 ? 2 : -1;
            if (bit < 0) return fail();
            reuse |= 1u << bit;
            if (key) key->append(".reuse ");
            ++p;
        }
        return true;
    }
    // [R + offset], bits at a, n bits wide, scaled by 1 << s
    bool address(bool offset, int a, int n, int s)
    {
        if (!expect('[')) return false;
        bool any = false;
        uint8_t r = 255;
        bool ru = false;
        if (cur().t == T::Reg) {
            r = uint8_t(cur().i);
            ++p;
            any = true;
            if (is(".reuse")) {
                reuse |= 1;
                ru = true;
                ++p;
            }
        }
        w |= uint64_t(r) << 8;
        int64_t v = 0;
        if (offset && cur().t == T::Int) {
            size_t tok = p;
            int64_t half = int64_t(1) << (n - 1);
            if (!(r == 255 ? integer(0, 2 * half - 1, v) : integer(-half, half - 1, v))) return false;
            if (v & ((int64_t(1) << s) - 1)) return fail(tok);
            uint64_t mask = (uint64_t(1) << n) - 1;
            w |= (uint64_t(v >> s) & mask) << a;
            any = true;
        }
        if (!any) return fail();
        k('R', r);
        if (ru) k(".reuse");
        k('+', v);
        return expect(']');
    }
    bool cbuf_index(int a)
    {
        if (!is("c")) return fail();
        ++p;
        if (!expect('[')) return false;
        int64_t v = 0;
        if (!integer(0, 31, v)) return false;
        w |= uint64_t(v) << a;
        k("c");
        k('#', v);
        return expect(']');
    }
    // float token or [+-] QNAN / INF; integers as given
    enum class N { Value, Nan, Inf };
    bool number(N& n, bool& neg, float& f, int64_t& i, bool& is_int)
    {
        is_int = false;
        n = N::Value;
        f = 0;
        i = 0;
        neg = false;
        if (cur().t == T::Float) {
            f = cur().f;
            neg = std::signbit(f);
            ++p;
            return true;
        }
        if (cur().t == T::Int) {
            is_int = true;
            i = cur().i;
            neg = i < 0;
            ++p;
            return true;
        }
        if (isp('+') || isp('-')) {
            neg = isp('-');
            ++p;
        }
        if (is("QNAN")) n = N::Nan;
        else if (is("INF")) n = N::Inf;
        else return fail();
        ++p;
        return true;
    }
    bool operand(const Operand& o);
    bool run(const Form& f, bool guard_pt, size_t guard_tok);
    bool sched(uint32_t& out);
};

bool Parser::operand(const Operand& o)
{
    ++steps;
    switch (o.kind) {
    case Op::Comma: return expect(',');
    case Op::Flag:
        if (is(o.text)) {
            w |= 1ULL << o.a;
            k(o.text);
            ++p;
        }
        return true;
    case Op::Mod: {
        auto r = lookup(o.names, true);
        if (!r && o.required) return fail();
        if (r) ++p;
        uint64_t v = r.value_or(o.dflt);
        w |= v << o.a;
        fields[o.a] = v;
        if (key) key->push_back('.'), k(v < o.names.size() ? o.names[v] : "");
        return true;
    }
    case Op::Word: {
        auto r = lookup(o.names, false);
        if (!r) return fail();
        w |= *r << o.a;
        k(o.names[*r]);
        ++p;
        return true;
    }
    case Op::Lit:
        if (!is(o.text)) return fail();
        w |= o.bits;
        // CC names the only possible source here; .PHYS selects no bits of its own
        if (o.text != "CC" && o.text != ".PHYS") k(o.text);
        ++p;
        return true;
    case Op::OptLit:
        if (is(o.text)) ++p;
        return true;
    case Op::Const: w |= o.bits; return true;
    case Op::Imp: k(o.text); return true;
    case Op::Reg: return reg(o.a);
    case Op::Mirror:
        if (cur().t != T::Reg) return fail();
        if (cur().i != regs[o.a]) {
            if (t[p + 1].t == T::Ident && t[p + 1].s == ".reuse") where.push_back({t[p + 1].line, t[p + 1].col}); // illegal, too
            return fail();
        }
        ++p;
        if (is(".reuse")) return fail();
        return true;
    case Op::Pred:
        if (cur().t != T::Pred || (cur().neg && !o.b)) return fail();
        w |= uint64_t(cur().i) << o.a;
        if (cur().neg) w |= 1ULL << (o.a + 3), k("!");
        k('P', cur().i);
        ++p;
        return true;
    case Op::PredInv:
        if (cur().t != T::Pred || cur().neg) return fail();
        w |= uint64_t(7 - cur().i) << o.a;
        k('P', cur().i);
        ++p;
        return true;
    case Op::Neg:
        if (isp('-')) w |= 1ULL << o.a, k("-"), ++p;
        return true;
    case Op::Tilde:
        if (isp('~')) w |= 1ULL << o.a, k("~"), ++p;
        return true;
    case Op::Po:
        if (is(".PO")) w |= (1ULL << o.a) | (1ULL << o.b), po = true, k(".PO"), ++p;
        return true;
    case Op::PoNeg: case Op::PoPostNeg:
        if (o.kind == Op::PoNeg ? isp('-') : is(".NEG")) {
            if (po || negated) return fail();
            negated = true;
            w |= 1ULL << o.a;
            k("-");
            ++p;
        }
        return true;
    case Op::UInt: {
        int64_t v = 0;
        if (!integer(0, int64_t((1ULL << o.a) - 1), v)) return false;
        w |= uint64_t(v) << o.b;
        k('#', v);
        return true;
    }
    case Op::SInt: {
        int64_t v = 0, h = int64_t(1) << (o.a - 1);
        if (!integer(-h, h - 1, v)) return false;
        w |= (uint64_t(v) & ((1ULL << o.a) - 1)) << o.b;
        k('#', v);
        return true;
    }
    case Op::SImm20: {
        int64_t v = 0;
        if (!integer(-524288, 524287, v)) return false;
        w |= (uint64_t(v) & 0x7FFFF) << 20;
        if (v < 0) w |= 1ULL << 56;
        k('#', v);
        return true;
    }
    case Op::UImm20x: {
        int64_t v = 0;
        if (!integer(0, 1048575, v)) return false;
        w |= (uint64_t(v) & 0x7FFFF) << 20;
        w |= (uint64_t(v) >> 19) << 56;
        k('#', v);
        return true;
    }
    case Op::F20: case Op::F32: {
        N n;
        bool neg, is_int;
        float f;
        int64_t i;
        size_t tok = p;
        if (!number(n, neg, f, i, is_int)) return false;
        uint32_t raw;
        if (n == N::Nan) raw = 0x7FC00000u | (neg ? 0x80000000u : 0);
        else if (n == N::Inf) raw = 0x7F800000u | (neg ? 0x80000000u : 0);
        else {
            if (is_int) {
                // representable: at most 24 significant bits
                uint64_t m = i < 0 ? -uint64_t(i) : uint64_t(i);
                if (m && (64 - std::countl_zero(m)) - std::countr_zero(m) > 24) return fail(tok);
                f = float(i);
            }
            raw = std::bit_cast<uint32_t>(f);
        }
        if (o.kind == Op::F32) {
            w |= uint64_t(raw) << 20;
            k('f', raw);
        } else {
            w |= uint64_t((raw & 0x7FFFFFFFu) >> 12) << 20;
            if (raw >> 31) w |= 1ULL << 56;
            k('f', raw >> 12);
        }
        return true;
    }
    case Op::D20: {
        N n;
        bool neg, is_int;
        float f;
        int64_t i;
        if (!number(n, neg, f, i, is_int)) return false;
        uint64_t raw;
        if (n == N::Nan) raw = 0x7FF8000000000000ULL;
        else if (n == N::Inf) raw = 0x7FF0000000000000ULL;
        else raw = std::bit_cast<uint64_t>(is_int ? double(i) : double(f));
        raw &= 0x7FFFFFFFFFFFFFFFULL;
        w |= (raw >> 44) << 20;
        if (neg) w |= 1ULL << 56;
        k('d', int64_t(raw >> 44) * 2 + neg);
        return true;
    }
    case Op::H9: case Op::H16: {
        N n;
        bool neg, is_int;
        float f;
        int64_t i;
        if (!number(n, neg, f, i, is_int)) return false;
        uint16_t h;
        if (n == N::Nan) h = 0x7FFF;
        else if (n == N::Inf) h = 0x7C00;
        else h = half_of(is_int ? float(i) : f) & 0x7FFF;
        if (o.kind == Op::H16) {
            h |= neg ? 0x8000 : 0;
            w |= uint64_t(h) << o.a;
            k('h', h);
        } else {
            w |= uint64_t(h >> 6) << o.a;
            if (neg) w |= 1ULL << o.b;
            k('h', (h >> 6) * 2 + neg);
        }
        return true;
    }
    case Op::CBuf: {
        size_t first = p;
        if (!cbuf_index(34) || !expect('[')) return false;
        int64_t v = 0;
        size_t tok = p;
        if (!integer(-32768, 32767, v)) return false;
        if (v & 3) {
            where.push_back({t[first].line, t[first].col});
            return fail(tok);
        }
        w |= ((uint64_t(v) & 0xFFFF) >> 2) << 20;
        k('#', v);
        return expect(']');
    }
    case Op::Addr: return address(true, o.a, o.b, o.c);
    case Op::AddrReg: return address(false, 0, 0, 0);
    case Op::LdcAddr: return cbuf_index(36) && address(true, 20, 16, 0);
    case Op::AttrImm: {
        int64_t v = 0;
        if (!is("a")) return fail();
        ++p;
        if (!expect('[') || !integer(0, 1023, v)) return false;
        w |= uint64_t(v) << 20 | 0xFFULL << 8;
        k("a R255");
        k('#', v);
        return expect(']');
    }
    case Op::AttrPatch: {
        int64_t v = 0;
        if (!is("a")) return fail();
        ++p;
        k("a");
        if (!expect('[') || !reg(8)) return false;
        if (isp('+')) ++p;
        if (!integer(-1024, 1023, v)) return false;
        w |= (uint64_t(v) & 0x7FF) << 20;
        k('#', v);
        return expect(']');
    }
    case Op::AttrPhys: {
        if (!is("a")) return fail();
        ++p;
        k("a");
        if (!expect('[') || !reg(8)) return false;
        k("#0");
        return expect(']');
    }
    case Op::XmadSigns: {
        bool s = is(".S16");
        if (!s && !is(".U16")) {
            k(".U16 .U16");
            return true;
        }
        ++p;
        bool s2 = is(".S16");
        if (!s2 && !is(".U16")) return fail();
        ++p;
        w |= (s ? 1ULL << 48 : 0) | (s2 ? 1ULL << 49 : 0);
        k(s ? ".S16" : ".U16");
        k(s2 ? ".S16" : ".U16");
        return true;
    }
    case Op::F2fRound: {
        static const std::vector<std::string> same = {"ROUND", "FLOOR", "CEIL", "TRUNC", "PASS"};
        static const uint64_t same_code[] = {8, 9, 10, 11, 3};
        static const std::vector<std::string> other = {"RN", "RM", "RP", "RZ"};
        uint64_t v = 0;
        if (fields[8] == fields[10]) {
            auto r = lookup(same, true);
            if (r) v = same_code[*r], ++p;
        } else {
            auto r = lookup(other, true);
            if (r) v = *r, ++p;
        }
        w |= v << 39;
        k('r', v);
        return true;
    }
    case Op::Fmt: {
        auto u = lookup(o.names, true);
        auto s = lookup(o.names2, true);
        if (!u && !s) return fail();
        uint64_t v = u ? *u : *s;
        w |= v << o.a;
        fields[o.a] = v;
        if (!u) w |= 1ULL << o.b;
        k(u ? o.names[v] : o.names2[v]);
        ++p;
        return true;
    }
    case Op::Sel16: {
        static const std::vector<std::string> bytes = {"B0", "B1", "B2", "B3"};
        static const std::vector<std::string> shorts = {"H0", "INVALIDSIZE1", "H1", "INVALIDSIZE3"};
        auto r = lookup(fields[o.a] == 1 ? shorts : bytes, true);
        if (r) ++p;
        w |= r.value_or(0) << 41;
        k('s', int64_t(r.value_or(0)));
        return true;
    }
    case Op::VFmt: {
        static const std::vector<std::string> s = {"S8", "", "S16", "S32"}, u = {"U8", "", "U16", "U32"};
        auto rs = lookup(s, true);
        auto ru = lookup(u, true);
        if (rs || ru) ++p;
        bool sign = !ru;
        uint64_t v = rs ? *rs : ru ? *ru : 3;
        w |= v << o.a | (sign ? 1ULL << o.b : 0);
        fields[o.a] = v;
        k(sign ? s[v] : u[v]);
        return true;
    }
    case Op::VSel: {
        static const std::vector<std::string> none = {}, bytes = {"B0", "B1", "B2", "B3"}, shorts = {"H0", "H1"};
        auto r = lookup(fields[o.b] == 0 ? bytes : fields[o.b] == 2 ? shorts : none, true);
        if (r) ++p;
        w |= r.value_or(0) << o.a;
        k('s', int64_t(r.value_or(0)));
        return true;
    }
    case Op::AtomicSize: {
        static const std::vector<std::string> names = {"U32", "S32", "U64", "F32", "F16x2", "S64"};
        auto r = lookup(names, true);
        if (r) {
            ++p;
            if (*r == 3) {
                if (!is(".FTZ")) return fail();
                ++p;
            }
            if (*r == 3 || *r == 4) {
                if (!is(".RN")) return fail();
                ++p;
            }
        }
        w |= r.value_or(0) << o.a;
        k(names[r.value_or(0)]);
        return true;
    }
    case Op::LdgSize: {
        static const std::vector<std::string> names = {"U8", "S8", "U16", "S16", "32", "64", "128", "U"};
        auto r = lookup(names, true);
        if (r) {
            ++p;
            if (*r == 7) {
                if (!is(".128")) return fail();
                ++p;
            }
        }
        w |= r.value_or(4) << 48;
        k(names[r.value_or(4)]);
        return true;
    }
    case Op::S2r: {
        int64_t v = -1;
        if (is("SR_TID") || is("SR_CTAID")) {
            bool tid = is("SR_TID");
            ++p;
            if (is(".X")) v = tid ? 33 : 37;
            else if (is(".Y")) v = tid ? 34 : 38;
            else if (is(".Z")) v = tid ? 35 : 39;
            if (v >= 0) ++p;
            else if (tid) v = 32;
            else return fail();
        } else {
            auto r = lookup(system_registers(), false);
            if (!r) return fail();
            v = int64_t(*r);
            ++p;
        }
        w |= uint64_t(v) << 20;
        k('S', v);
        return true;
    }
    case Op::TexsMode:
        if (is(".LZ")) lod = 2, k(".LZ"), ++p;
        else if (is(".LL")) lod = 1, k(".LL"), ++p;
        if (is(".DC")) dc = true, k(".DC"), ++p;
        return true;
    case Op::TexsType: {
        struct Row { const char* name; int lod; bool dc; uint64_t code; };
        static const Row rows[] = {
            {"1D", 2, false, 0}, {"2D", 0, false, 1}, {"2D", 2, false, 2}, {"2D", 1, false, 3}, {"2D", 0, true, 4},
            {"2D", 1, true, 5}, {"2D", 2, true, 6}, {"ARRAY_2D", 0, false, 7}, {"ARRAY_2D", 2, false, 8},
            {"ARRAY_2D", 2, true, 9}, {"3D", 0, false, 10}, {"3D", 2, false, 11}, {"CUBE", 0, false, 12},
            {"CUBE", 1, false, 13}};
        for (const Row& r : rows)
            if (is(r.name) && lod == r.lod && dc == r.dc) {
                w |= r.code << 53;
                k(r.name);
                ++p;
                return true;
            }
        return fail();
    }
    case Op::TldsLod:
        if (is(".LZ")) lod = 0;
        else if (is(".LL")) lod = 1;
        else return fail();
        k(lod ? ".LL" : ".LZ");
        ++p;
        return true;
    case Op::TldsAoffi:
        if (is(".AOFFI")) aoffi = true, k(".AOFFI"), ++p;
        return true;
    case Op::TldsMs:
        if (is(".MS")) ms = true, k(".MS"), ++p;
        return true;
    case Op::TldsType: {
        struct Row { const char* name; int ll; bool aoffi, ms; uint64_t code; };
        static const Row rows[] = {{"1D", 0, false, false, 0}, {"1D", 1, false, false, 1}, {"2D", 0, false, false, 2},
                                   {"2D", 0, true, false, 4}, {"2D", 1, false, false, 5}, {"2D", 0, false, true, 6},
                                   {"3D", 0, false, false, 7}, {"ARRAY_2D", 0, false, false, 8},
                                   {"2D", 1, true, false, 12}};
        for (const Row& r : rows)
            if (is(r.name) && lod == r.ll && aoffi == r.aoffi && ms == r.ms) {
                w |= r.code << 53;
                k(r.name);
                ++p;
                return true;
            }
        return fail();
    }
    case Op::Swizzle: {
        static const std::vector<std::string> two = {"R", "G", "B", "A", "RG", "RA", "GA", "BA"};
        static const std::vector<std::string> four = {"RGB", "RGA", "RBA", "GBA", "RGBA"};
        const auto& names = regs[28] == 255 ? two : four;
        auto r = lookup(names, false);
        if (!r) return fail();
        w |= *r << 50;
        k(names[*r]);
        ++p;
        return true;
    }
    case Op::Zero:
        if (cur().t != T::Int || cur().i != 0) return fail();
        ++p;
        return true;
    case Op::Label: {
        int64_t target;
        if (cur().t == T::Ident) {
            auto it = labels.find(cur().s);
            if (it == labels.end()) return fail();
            target = it->second;
        } else if (cur().t == T::Int) {
            target = cur().i;
        } else {
            return fail();
        }
        __int128 d = static_cast<__int128>(target) - pc - 8;
        if (d < -8388608 || d > 8388607) return fail();
        w |= (uint64_t(int64_t(d)) & 0xFFFFFF) << 20;
        k('t', target);
        ++p;
        return true;
    }
    case Op::FlowOpt: case Op::FlowReq: {
        uint64_t v = 15;
        if (is("CC")) {
            ++p;
            auto r = lookup(flow_tests(), true);
            if (!r) return fail();
            v = *r;
            ++p;
        } else if (o.kind == Op::FlowReq) {
            return fail();
        }
        w |= v;
        if (key) key->push_back('.'), k(flow_tests()[v]);
        return true;
    }
    case Op::Abs: case Op::EndAbs: break; // handled in run
    }
    std::abort();
}

bool Parser::sched(uint32_t& out)
{
    int64_t stall = -1, wb = -1, rb = -1;
    uint32_t wait = 0;
    bool yield = false;
    while (isp('@')) {
        ++steps;
        ++p;
        int64_t v = 0;
        if (is("WAIT")) {
            if (stall >= 0) return fail();
            ++p;
            if (!integer(0, 15, v)) return false;
            stall = v;
        } else if (is("WB") || is("RB")) {
            int64_t& b = is("WB") ? wb : rb;
            if (b >= 0) return fail();
            ++p;
            if (!integer(0, 5, v)) return false;
            b = v;
        } else if (is("Y") || is("YIELD")) {
            if (yield) return fail();
            yield = true;
            ++p;
        } else if (is("DEP")) {
            ++p;
            size_t tok = p;
            if (!integer(0, 5, v)) return false;
            if (wait >> v & 1) return fail(tok);
            wait |= 1u << v;
        } else {
            return fail();
        }
    }
    out = uint32_t(stall < 0 ? 0 : stall) | (yield ? 1u << 4 : 0) | uint32_t(wb < 0 ? 7 : wb) << 5 |
          uint32_t(rb < 0 ? 7 : rb) << 8 | wait << 11;
    return true;
}

bool Parser::run(const Form& f, bool guard_pt, size_t guard_tok)
{
    w |= f.opcode;
    if (f.nopred && !guard_pt) {
        where.push_back({t[guard_tok].line, t[guard_tok].col});
        return fail();
    }
    bool in_abs = false, in_group = false;
    for (const Operand& o : f.ops) {
        if (o.kind == Op::Abs) {
            in_abs = isp('|');
            if (in_abs) w |= 1ULL << o.a, k("|"), ++p;
        } else if (o.kind == Op::EndAbs) {
            if (in_abs && !expect('|')) return false;
            in_abs = false;
        } else if (!operand(o)) {
            return false;
        }
        if (o.kind == Op::Abs) in_group = true;
        if (o.kind == Op::EndAbs) in_group = false;
        items += o.kind != Op::Imp && !in_group; // bars and what they enclose are one part
    }
    items += 1000;
    return true;
}
} // namespace

std::vector<uint64_t> layout(const std::vector<Insn>& insns)
{
    std::vector<uint64_t> out;
    for (size_t i = 0; i < insns.size(); i += 3) {
        uint64_t s = 0;
        for (size_t j = 0; j < 3; ++j) s |= (i + j < insns.size() ? uint64_t(insns[i + j].sched) : IDLE) << (21 * j);
        out.push_back(s);
        for (size_t j = 0; j < 3; ++j) out.push_back(i + j < insns.size() ? insns[i + j].word : NOP_WORD);
    }
    return out;
}

static bool alpha(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }

static Labels collect_labels(std::string_view text)
{
    Labels l;
    int64_t n = 0;
    size_t b = 0;
    while (b < text.size()) {
        size_t e = text.find('\n', b);
        std::string_view line = text.substr(b, e == text.npos ? text.npos : e - b);
        if (!line.empty() && alpha(line[0])) {
            size_t i = 1;
            while (i < line.size() && (alpha(line[i]) || digit(line[i]) || line[i] == '_')) ++i;
            if (i < line.size() && line[i] == ':') l.emplace(line.substr(0, i), address(n));
        }
        n += std::count(line.begin(), line.end(), ';');
        if (e == text.npos) break;
        b = e + 1;
    }
    return l;
}

Program assemble(std::string_view text, const Options& opt)
{
    if (size_t z = text.find('\0'); z != text.npos) text = text.substr(0, z);
    Program out;
    const Labels labels = collect_labels(text);
    const std::vector<Tok> t = lex(text);
    size_t p = 0;
    bool dksh = false;
    int type = -1;
    int64_t gprs = 8, dims[3] = {1, 1, 1}, shared = 0, local = 0;
    auto fail = [&](size_t i) {
        out.where.push_back({t[i].line, t[i].col});
        return out;
    };
    while (t[p].t != T::End) {
        if (t[p].t == T::Bad) return fail(p);
        while (t[p].t == T::Ident && t[p].s[0] == '.') {
            ++steps;
            const size_t d = p;
            const int line = t[d].line;
            auto same_line = [&] { return t[p].line == line; };
            auto integer = [&](int64_t max, int64_t& v) {
                ++p;
                if (!same_line() || t[p].t != T::Int || t[p].i < 0 || t[p].i > max) return false;
                v = t[p].i;
                return true;
            };
            if (t[d].s == ".dksh" || t[d].s == ".type") {
                if (t[d].s == ".dksh") dksh = true;
                if (type >= 0) return fail(d);
                ++p;
                if (!same_line() || t[p].t != T::Ident) return fail(p);
                static const std::pair<std::string_view, int> types[] = {
                    {"vertex", 0}, {"tess_control", 1}, {"hull", 1}, {"tess_eval", 2}, {"domain", 2},
                    {"geometry", 3}, {"fragment", 4}, {"pixel", 4}, {"compute", 5}};
                for (auto& [n, v] : types)
                    if (t[p].s == n) type = v;
                if (type < 0) return fail(p);
            } else if (t[d].s == ".num_gprs") {
                if (!integer(256, gprs)) return fail(p);
            } else if (t[d].s == ".workgroup_size") {
                for (int64_t& v : dims)
                    if (!integer(65535, v)) return fail(p);
            } else if (t[d].s == ".shared_memory") {
                if (!integer((1 << 24) - 1, shared)) return fail(p);
            } else if (t[d].s == ".local_memory") {
                if (!integer((1 << 24) - 1, local)) return fail(p);
            } else {
                return fail(p);
            }
            ++p;
            if (same_line()) return fail(p);
        }
        ++steps;
        // guard
        uint64_t guard = 7;
        size_t guard_tok = p;
        std::string guard_key = "P7";
        if (t[p].t == T::Punct && t[p].ch == '@') {
            ++p;
            guard_tok = p;
            if (t[p].t != T::Pred) return fail(p);
            guard = uint64_t(t[p].i) | (t[p].neg ? 8 : 0);
            ++p;
        }
        if (t[p].t != T::Ident) return fail(p);
        auto it = by_mnemonic().find(t[p].s);
        if (it == by_mnemonic().end()) return fail(p);
        const int64_t pc = address(int64_t(out.insns.size()));
        // The instruction stops being legal where one of its forms stops; a form that another one clearly beats both in
        // matched operands and in position does not count.
        struct Failed { size_t items, stopped; std::vector<Pos> where; };
        std::vector<Failed> failed;
        std::vector<Pos> where;
        bool done = false;
        std::string key;
        for (const Form* f : it->second) {
            where.clear();
            Parser ps{t, p + 1, 0, 0, pc, labels, where, nullptr};
            if (opt.keys) {
                key.clear();
                key += f->mnemonic;
                key += " g" + std::to_string(guard) + " ";
                ps.key = &key;
            }
            uint32_t s = 0;
            if (!ps.run(*f, guard == 7, guard_tok) || !ps.sched(s) || !(ps.isp(';') || ps.fail())) {
                failed.push_back({ps.items, ps.stopped, where});
                continue;
            }
            Insn in;
            in.word = ps.w | guard << 16;
            in.sched = s | ps.reuse << 17;
            in.form = f->index;
            if (opt.keys) in.key = key + "@" + std::to_string(s);
            out.insns.push_back(std::move(in));
            p = ps.p + 1;
            done = true;
            break;
        }
        if (!done) {
            std::vector<Pos> best;
            for (auto& f : failed)
                if (std::none_of(failed.begin(), failed.end(), [&](auto& g) { return g.items > f.items && g.stopped > f.stopped; }))
                    best.insert(best.end(), f.where.begin(), f.where.end());
            std::sort(best.begin(), best.end());
            best.erase(std::unique(best.begin(), best.end()), best.end());
            out.where = std::move(best);
            return out;
        }
    }
    std::vector<uint64_t> code = layout(out.insns);
    if (dksh) {
        auto m = labels.find("main");
        if (m == labels.end() || m->second % 32 != 8 || type != 5) return out;
        const uint32_t local16 = uint32_t((local + 15) / 16 * 16);
        const uint32_t h[] = {0x48534B44, 24, 256, uint32_t((code.size() * 8 + 255) / 256 * 256), 24, 1,
                              // program header
                              5, uint32_t(m->second - 8), uint32_t(gprs), 0, 0, local16 * 32 + 0x800,
                              uint32_t(dims[0]), uint32_t(dims[1]), uint32_t(dims[2]),
                              uint32_t((shared + 255) / 256 * 256), local16, 0, 0x800, 0};
        out.words.assign(32, 0);
        for (size_t i = 0; i < std::size(h); ++i) out.words[i / 2] |= uint64_t(h[i]) << (32 * (i % 2));
        out.words.insert(out.words.end(), code.begin(), code.end());
        while (out.words.size() % 32) out.words.push_back(0);
    } else {
        if (type >= 0 && type != 5) return out;
        out.words = std::move(code);
    }
    out.ok = true;
    return out;
}

} // namespace model
