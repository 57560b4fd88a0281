#include "gen.hpp"
#include <algorithm>

namespace gen {

using model::Form;
using model::Op;
using model::Operand;

const std::vector<std::string> guards = [] {
    std::vector<std::string> g = {""};
    for (const char* n : {"", "!"})
        for (const char* p : {"P0", "P1", "P2", "P3", "P4", "P5", "P6", "PT"}) g.push_back(std::string("@") + n + p + " ");
    return g;
}();

static void add(Choices& c, std::initializer_list<const char*> l)
{
    for (const char* s : l) c.alt.push_back(s);
}

static std::string hex(uint64_t v)
{
    char b[32];
    std::snprintf(b, sizeof b, "0x%llx", (unsigned long long)v);
    return b;
}

static void add_signed(Choices& c, int bits, int shift)
{
    int64_t h = int64_t(1) << (bits - 1), u = int64_t(1) << shift;
    for (int64_t v : {u, -u, h - u, -h, h / 2, -h / 2 - u, int64_t(0)}) c.alt.push_back(std::to_string(v));
}

static Choices make(const Operand& o, int& nreg, int& npred, int& nnum)
{
    Choices c;
    switch (o.kind) {
    case Op::Comma: c.alt = {","}; break;
    case Op::Lit: c.alt = {o.text}; break;
    case Op::Const: case Op::Imp: case Op::EndAbs: c.alt = {""}; break;
    case Op::Flag: case Op::OptLit:
        c.alt = {"", o.text};
        c.core = 2;
        c.modifier = true;
        break;
    case Op::Mod: {
        c.modifier = true;
        if (!o.required) c.alt.push_back("");
        for (auto& n : o.names)
            if (!n.empty()) c.alt.push_back("." + n);
        // the simplest choices first, then the last, so that the core has low and high bits set
        if (c.alt.size() > 3) std::swap(c.alt[2], c.alt.back());
        c.core = std::min<size_t>(c.alt.size(), 4);
        break;
    }
    case Op::Word:
        c.modifier = true;
        for (auto& n : o.names)
            if (!n.empty()) c.alt.push_back(n);
        if (c.alt.size() > 3) std::swap(c.alt[2], c.alt.back());
        c.core = std::min<size_t>(c.alt.size(), 3);
        break;
    case Op::Reg: {
        int d = ++nreg;
        bool reuse = o.a == 8 || o.a == 20 || o.a == 39;
        c.alt.push_back("R" + std::to_string(d));
        c.alt.push_back("RZ");
        c.alt.push_back("R170");
        if (reuse) c.alt.push_back("R85.reuse");
        c.core = c.alt.size();
        for (int i = 0; i < 255; ++i)
            if (i != d && i != 170) c.alt.push_back("R" + std::to_string(i));
        if (reuse) c.alt.push_back("RZ.reuse");
        break;
    }
    case Op::Mirror: c.alt = {"=" + std::to_string(o.a)}; break; // the register at that position
    case Op::Pred: case Op::PredInv: {
        int d = ++npred % 7;
        c.alt.push_back("P" + std::to_string(d));
        c.alt.push_back("PT");
        if (o.kind == Op::Pred && o.b) c.alt.push_back("!P5");
        c.core = c.alt.size();
        for (int i = 0; i < 7; ++i)
            if (i != d) c.alt.push_back("P" + std::to_string(i));
        if (o.kind == Op::Pred && o.b) {
            for (int i = 0; i < 7; ++i)
                if (i != 5) c.alt.push_back("!P" + std::to_string(i));
            c.alt.push_back("!PT");
        }
        break;
    }
    case Op::Neg: case Op::PoNeg: c.alt = {"", "-"}; c.core = 2; c.modifier = true; break;
    case Op::Tilde: c.alt = {"", "~"}; c.core = 2; c.modifier = true; break;
    case Op::Abs: c.alt = {"", "|"}; c.core = 2; c.modifier = true; break;
    case Op::Po: c.alt = {"", ".PO"}; c.core = 2; c.modifier = true; break;
    case Op::PoPostNeg: c.alt = {"", ".NEG"}; c.core = 2; c.modifier = true; break;
    case Op::UInt: {
        uint64_t max = (1ULL << o.a) - 1;
        c.alt.push_back(hex(std::min<uint64_t>(max, uint64_t(++nnum))));
        c.alt.push_back(hex(max));
        c.alt.push_back("0");
        c.core = 2;
        for (int b = 0; b < o.a; ++b) {
            c.alt.push_back(hex(1ULL << b));
            c.alt.push_back(hex(max ^ (1ULL << b)));
        }
        c.alt.push_back(hex(0xAAAAAAAAAAAAAAAAULL & max));
        c.alt.push_back(hex(0x5555555555555555ULL & max));
        break;
    }
    case Op::SInt:
        c.alt.push_back(hex(uint64_t(++nnum)));
        c.core = 3;
        add_signed(c, o.a, 0);
        break;
    case Op::SImm20:
        c.alt.push_back(hex(uint64_t(++nnum)));
        add(c, {"-1", "524287", "-524288", "0", "0x2aaaa", "0x55555", "-0x2aaab", "262144"});
        c.core = 3;
        break;
    case Op::UImm20x:
        c.alt.push_back(hex(uint64_t(++nnum)));
        add(c, {"0xfffff", "0x80000", "0", "0x7ffff", "0xaaaaa", "0x55555"});
        c.core = 3;
        break;
    case Op::F20: case Op::F32: case Op::D20: case Op::H9: case Op::H16:
        add(c, {"1.5", "-2.25", "-INF", "0.0", "-0.0", "+INF", "INF", "QNAN", "-QNAN", "+QNAN", "65504.0", "-65536.0",
                "0.1", "-0.3333333333333", "3", "-7", "340282346638528859811704183484516925440.0", "0.00000001"});
        c.core = 3;
        break;
    case Op::CBuf:
        add(c, {"c[0x1][0x4]", "c[0x1f][0x7ffc]", "c[0x0][-0x8000]", "c[0][0]", "c[0x10][-4]", "c[0x15][0x5554]",
                "c[0xa][-0x5554]", "c[31][-4]", "c[2][0x4000]"});
        c.core = 3;
        break;
    case Op::Addr: {
        int d = ++nreg;
        int64_t h = int64_t(1) << (o.b - 1), u = int64_t(1) << o.c;
        std::string r = "[R" + std::to_string(d);
        c.alt.push_back(r + "+" + hex(uint64_t(4 * ++nnum)) + "]");
        c.alt.push_back("[RZ+" + hex(uint64_t(2 * h - u)) + "]");
        c.alt.push_back("[R170-" + hex(uint64_t(h)) + "]");
        c.core = 3;
        c.alt.push_back("[R85.reuse+" + hex(uint64_t(h - u)) + "]");
        c.alt.push_back(r + "]");
        c.alt.push_back("[RZ]");
        c.alt.push_back("[" + hex(uint64_t(u)) + "]");
        c.alt.push_back("[" + hex(uint64_t(2 * h - u)) + "]");
        c.alt.push_back("[0]");
        c.alt.push_back(r + std::to_string(-u) + "]");
        c.alt.push_back(r + " -" + hex(uint64_t(u)) + "]");
        c.alt.push_back(r + ".reuse]");
        for (int i : {0, 1, 2, 127, 128, 253, 254}) c.alt.push_back("[R" + std::to_string(i) + "+" + hex(uint64_t(u)) + "]");
        break;
    }
    case Op::AddrReg: {
        int d = ++nreg;
        c.alt.push_back("[R" + std::to_string(d) + "]");
        add(c, {"[RZ]", "[R170]", "[R85.reuse]", "[R0]", "[R254]", "[R128]", "[R1]"});
        c.core = 3;
        break;
    }
    case Op::LdcAddr: {
        int d = ++nreg;
        std::string r = "[R" + std::to_string(d);
        c.alt.push_back("c[0x1]" + r + "+0x4]");
        add(c, {"c[0x1f][0xffff]", "c[0x0][R170-0x8000]", "c[0x1f][R254+0x7fff]", "c[3][RZ]", "c[3][R0]", "c[0x10][R85.reuse+1]",
                "c[0xa][0x5555]", "c[0x15][0xaaaa]", "c[2][RZ+0xfffe]", "c[4][R9-1]", "c[4][0]"});
        c.core = 3;
        break;
    }
    case Op::AttrImm:
        add(c, {"a[0x4]", "a[0x3ff]", "a[0]", "a[0x2aa]", "a[0x155]", "a[0x200]"});
        c.core = 2;
        break;
    case Op::AttrPatch:
        add(c, {"a[R3+0x4]", "a[RZ+-0x400]", "a[R170+0x3ff]", "a[R85.reuse+0]", "a[R3+-1]", "a[R254+0x2aa]", "a[R0 0x155]", "a[R1 -0x70]"});
        c.core = 3;
        break;
    case Op::AttrPhys:
        add(c, {"a[R3]", "a[RZ]", "a[R170]", "a[R85.reuse]", "a[R0]", "a[R254]"});
        c.core = 3;
        break;
    case Op::XmadSigns:
        add(c, {"", ".S16.U16", ".U16.S16", ".S16.S16", ".U16.U16"});
        c.core = 5;
        c.modifier = true;
        break;
    case Op::F2fRound:
        add(c, {"", ".ROUND", ".FLOOR", ".CEIL", ".TRUNC", ".PASS", ".RN", ".RM", ".RP", ".RZ"});
        c.core = 10;
        c.modifier = true;
        break;
    case Op::Fmt:
        for (auto& v : {o.names, o.names2})
            for (auto& n : v)
                if (!n.empty()) c.alt.push_back("." + n);
        c.core = c.alt.size();
        c.modifier = true;
        break;
    case Op::Sel16:
        add(c, {"", ".B1", ".B3", ".H1", ".B0", ".B2", ".H0", ".INVALIDSIZE1", ".INVALIDSIZE3"});
        c.core = c.alt.size();
        c.modifier = true;
        break;
    case Op::VFmt:
        add(c, {"", ".U8", ".S8", ".U16", ".S16", ".U32", ".S32"});
        c.core = c.alt.size();
        c.modifier = true;
        break;
    case Op::VSel:
        add(c, {"", ".B1", ".B3", ".H1", ".B0", ".B2", ".H0"});
        c.core = c.alt.size();
        c.modifier = true;
        break;
    case Op::AtomicSize:
        add(c, {"", ".S32", ".U64", ".F32.FTZ.RN", ".F16x2.RN", ".S64", ".U32"});
        c.core = c.alt.size();
        c.modifier = true;
        break;
    case Op::LdgSize:
        add(c, {"", ".U8", ".S8", ".U16", ".S16", ".32", ".64", ".128", ".U.128"});
        c.core = c.alt.size();
        c.modifier = true;
        break;
    case Op::S2r:
        c.alt = {"SR_LANEID", "SR_CTAID.Z", "SR_VIRTID", "SR_TID", "SR_TID.X", "SR_TID.Y", "SR_TID.Z", "SR_CTAID.X", "SR_CTAID.Y"};
        c.core = 3;
        for (auto& n : model::system_registers())
            if (!n.empty() && std::find(c.alt.begin(), c.alt.end(), n) == c.alt.end()) c.alt.push_back(n);
        break;
    case Op::TexsMode:
        add(c, {"", ".LZ", ".LL", ".DC", ".LZ.DC", ".LL.DC"});
        c.core = 6;
        c.modifier = true;
        break;
    case Op::TexsType:
        add(c, {"2D", "1D", "ARRAY_2D", "3D", "CUBE"});
        c.core = 5;
        c.modifier = true;
        break;
    case Op::TldsLod: add(c, {".LZ", ".LL"}); c.core = 2; c.modifier = true; break;
    case Op::TldsAoffi: add(c, {"", ".AOFFI"}); c.core = 2; c.modifier = true; break;
    case Op::TldsMs: add(c, {"", ".MS"}); c.core = 2; c.modifier = true; break;
    case Op::TldsType: add(c, {"2D", "1D", "3D", "ARRAY_2D"}); c.core = 4; c.modifier = true; break;
    case Op::Swizzle: // ~k: k-th name of the set that the destination asks for
        add(c, {"~0", "~1", "~2", "~3", "~4", "~5", "~6", "~7"});
        c.core = 8;
        c.modifier = true;
        break;
    case Op::Zero: add(c, {"0x0", "0"}); c.core = 1; break;
    case Op::Label:
        c.alt = {"0x10", "0", "0x800007", "-0x7ffff0", "target"};
        c.core = 2;
        break;
    case Op::FlowOpt: case Op::FlowReq: {
        c.modifier = true;
        if (o.kind == Op::FlowOpt) c.alt.push_back("");
        for (auto& n : model::flow_tests()) c.alt.push_back("CC." + n);
        std::swap(c.alt[1], c.alt.back());
        c.core = 3;
        break;
    }
    }
    return c;
}

const std::vector<std::vector<Choices>>& choices()
{
    static const auto all = [] {
        std::vector<std::vector<Choices>> v;
        for (const Form& f : model::forms()) {
            std::vector<Choices> l;
            int nreg = 0, npred = 0, nnum = 0;
            for (const Operand& o : f.ops) l.push_back(make(o, nreg, npred, nnum));
            v.push_back(std::move(l));
        }
        return v;
    }();
    return all;
}

static bool digit(char c) { return c >= '0' && c <= '9'; }

std::string text(int form, const std::vector<uint32_t>& pick, std::string_view guard, int at, std::string_view custom)
{
    const Form& f = model::forms()[form];
    const auto& ch = choices()[form];
    std::string s(guard);
    s += f.mnemonic;
    bool operands = false; // past the modifiers of the mnemonic
    std::string_view reg[64];
    bool number = false; // the last piece was a number
    bool bar = false;
    for (size_t i = 0; i < f.ops.size(); ++i) {
        const Operand& o = f.ops[i];
        std::string_view a = int(i) == at ? custom : std::string_view(ch[i].alt[pick[i]]);
        if (o.kind == Op::Reg) reg[o.a] = a;
        if (o.kind == Op::Abs) bar = !a.empty();
        if (o.kind == Op::EndAbs) {
            if (bar) s += '|';
            bar = false;
            continue;
        }
        if (a.empty()) continue;
        if (o.kind == Op::Comma) {
            s += ", ";
            number = false;
            continue;
        }
        if (a[0] == '.') {
            if (number) s += ' ';
            s += a;
            continue;
        }
        if (!operands) {
            s += ' ';
            operands = true;
        } else if (o.kind == Op::Lit || o.kind == Op::Word || o.kind == Op::FlowOpt) {
            if (s.back() != ' ') s += ' ';
        }
        if (a[0] == '=') {
            std::string_view r = reg[std::stoi(std::string(a.substr(1)))];
            s += r.substr(0, r.find('.'));
        } else if (a[0] == '~' && a.size() > 1) {
            static const char* two[] = {"R", "G", "B", "A", "RG", "RA", "GA", "BA"};
            static const char* four[] = {"RGB", "RGA", "RBA", "GBA", "RGBA", "RGB", "RGA", "RBA"};
            s += (reg[28].starts_with("RZ") ? two : four)[a[1] - '0'];
        } else {
            if (!s.empty() && (s.back() == '-' || s.back() == '~') && digit(a[0])) s += ' ';
            s += a;
        }
        number = digit(a[0]) || ((a[0] == '-' || a[0] == '+') && a.size() > 1 && digit(a[1]));
    }
    s += ';';
    return s;
}

std::string simplest(int form, int at, std::string_view custom)
{
    std::vector<uint32_t> pick(model::forms()[form].ops.size(), 0);
    return text(form, pick, {}, at, custom);
}

const std::string& rich(int form)
{
    static const std::vector<std::string> all = [] {
        std::vector<std::string> v;
        for (const Form& f : model::forms()) {
            const auto& ch = choices()[f.index];
            std::vector<uint32_t> pick(ch.size(), 0);
            for (size_t i = 0; i < ch.size(); ++i) {
                for (size_t k = ch[i].core; k-- > 1;) {
                    uint32_t old = pick[i];
                    pick[i] = uint32_t(k);
                    model::Program p = model::assemble(text(f.index, pick));
                    if (p.ok && p.insns[0].form == f.index) break;
                    pick[i] = old;
                }
            }
            v.push_back(text(f.index, pick));
        }
        return v;
    }();
    return all[form];
}

std::vector<std::string> split_tokens(std::string_view t)
{
    std::vector<std::string> out;
    std::string copy(t);
    for (const model::Tok& k : model::lex(copy)) {
        if (k.t == model::T::End || k.t == model::T::Bad) break;
        out.emplace_back(k.s);
    }
    return out;
}

static void rec(const std::vector<Choices>& ch, std::vector<uint32_t>& pick, size_t from, int depth, int full,
                const std::function<void(const std::vector<uint32_t>&)>& fn)
{
    fn(pick);
    if (!depth) return;
    for (size_t i = from; i < ch.size(); ++i) {
        size_t n = full ? ch[i].alt.size() : ch[i].core;
        for (size_t k = 1; k < n; ++k) {
            pick[i] = uint32_t(k);
            rec(ch, pick, i + 1, depth - 1, k < ch[i].core ? full : full - 1, fn);
        }
        pick[i] = 0;
    }
}

void deviations(int form, int depth, int full, int first, const std::function<void(const std::vector<uint32_t>&)>& fn)
{
    const auto& ch = choices()[form];
    std::vector<uint32_t> pick(ch.size(), 0);
    if (first < 0) {
        rec(ch, pick, 0, depth, full, fn);
        return;
    }
    size_t n = full ? ch[first].alt.size() : ch[first].core;
    for (size_t k = 1; k < n; ++k) {
        pick[first] = uint32_t(k);
        rec(ch, pick, first + 1, depth - 1, k < ch[first].core ? full : full - 1, fn);
    }
}

} // namespace gen
