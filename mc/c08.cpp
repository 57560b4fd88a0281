// C08: an instruction's word does not depend on its neighbours.
#include "check.hpp"
#include <sys/wait.h>
#include <unistd.h>

extern "C" [[noreturn]] void __real__exit(int);

namespace check {
namespace {
struct Solo { bool ok = false; uint64_t word = 0; uint32_t sched = 0; };
std::vector<std::string> text;

bool same(const std::string& t, const std::vector<int>& which, const std::vector<Solo>& solo, std::string* why)
{
    const impl::Result& r = run::assemble(t);
    if (!r.ok()) {
        if (why) *why = "each instruction assembles alone; together: " + impl::describe(r);
        return false;
    }
    for (size_t i = 0; i < which.size(); ++i) {
        size_t g = i / 3 * 4, j = i % 3;
        uint64_t w = g + 1 + j < r.words.size() ? r.words[g + 1 + j] : 0;
        uint32_t s = g < r.words.size() ? uint32_t(r.words[g] >> (21 * j) & 0x1FFFFF) : 0;
        if (w == solo[which[i]].word && s == solo[which[i]].sched) continue;
        if (why) {
            char b[256];
            std::snprintf(b, sizeof b, "instruction %zu is %016llx/%06x, alone it is %016llx/%06x", i, (unsigned long long)w, s,
                          (unsigned long long)solo[which[i]].word, solo[which[i]].sched);
            *why = b;
        }
        return false;
    }
    return true;
}

std::vector<Solo> solos()
{
    std::vector<Solo> v;
    for (auto& t : text) {
        const impl::Result& r = run::assemble(t);
        Solo s;
        if (r.ok() && r.words.size() == 4) s = {true, r.words[1], uint32_t(r.words[0] & 0x1FFFFF)};
        v.push_back(s);
    }
    return v;
}

Solo solo_of(const std::string& t)
{
    const impl::Result& r = run::assemble(t);
    if (r.ok() && r.words.size() == 4) return {true, r.words[1], uint32_t(r.words[0] & 0x1FFFFF)};
    return {};
}

// The same in a process of its own, that has not seen the other instructions.
Solo alone(const std::string& t)
{
    int fd[2];
    if (pipe(fd)) return solo_of(t);
    pid_t p = fork();
    if (!p) {
        alarm(60);
        Solo s = solo_of(t);
        ssize_t n = write(fd[1], &s, sizeof s);
        __real__exit(n == sizeof s ? 0 : 1);
    }
    close(fd[1]);
    Solo s;
    if (p < 0 || read(fd[0], &s, sizeof s) != sizeof s) s = {};
    close(fd[0]);
    if (p > 0) waitpid(p, nullptr, 0);
    return s;
}

// In a fresh process: each instruction alone, then together. The text separates the instructions with \x1e.
bool (*plain)(unsigned, std::string_view, const char*);
bool judge(unsigned mode, std::string_view parts, const char* kind)
{
    if (mode) return plain(mode, parts, kind); // a text of its own, judged by the model
    std::vector<int> which;
    std::vector<Solo> v;
    std::string cur, t;
    for (char c : parts) {
        if (c != '\x1e') {
            cur += c;
            continue;
        }
        v.push_back(alone(cur));
        if (!v.back().ok) return true; // C01's business
        which.push_back(int(which.size()));
        t += cur;
        cur.clear();
    }
    std::string why;
    if (same(t, which, v, &why)) return true;
    run::violation(kind, t, why);
    return false;
}

void put(const std::vector<int>& which, const std::vector<Solo>& v)
{
    if (run::stop()) return;
    std::string t;
    for (int w : which) {
        if (!v[w].ok) return;
        t += text[w];
    }
    run::states();
    run::transitions(which.size());
    run::traces();
    if (same(t, which, v, nullptr)) return;
    std::string code;
    for (int w : which) code += text[w] + '\x1e';
    run::confirm(0, code, "neighbours");
}

// the same for texts that are not in the list
struct Part { std::string t; Solo s; };
void put(const Part* const* part, size_t n)
{
    if (run::stop()) return;
    static std::string t;
    static std::vector<Solo> v;
    static std::vector<int> which;
    t.clear(), v.clear(), which.clear();
    for (size_t i = 0; i < n; ++i) {
        if (!part[i]->s.ok) return;
        t += part[i]->t;
        v.push_back(part[i]->s);
        which.push_back(int(i));
    }
    run::states();
    run::transitions(n);
    run::traces();
    if (same(t, which, v, nullptr)) return;
    std::string code;
    for (size_t i = 0; i < n; ++i) code += part[i]->t + '\x1e';
    run::confirm(0, code, "neighbours");
}
// x before, after and between the probes
void around(const Part& x, const std::vector<Part>& probes)
{
    for (size_t i = 0; i < probes.size(); ++i) {
        const Part *p = &probes[i], *q = &probes[(i + 1) % probes.size()];
        const Part* a[] = {&x, p, q, p, &x};
        const Part* b[] = {q, &x, p};
        const Part* c[] = {p, q, &x, p, p};
        put(a, 5), put(b, 3), put(c, 5);
    }
}
std::vector<Part> probes_of(std::initializer_list<const char*> l)
{
    std::vector<Part> v;
    for (const char* t : l) v.push_back({t, solo_of(t)});
    return v;
}
} // namespace

void c08()
{
    plain = run::judge;
    run::judge = judge;
    for (auto& f : model::forms()) {
        bool branch = false;
        for (auto& o : f.ops) branch |= o.kind == model::Op::Label;
        if (branch) continue;
        std::string s = gen::simplest(f.index), r = gen::rich(f.index);
        text.push_back(s);
        if (r != s) {
            r.pop_back();
            text.push_back((f.nopred ? "" : "@!P2 ") + r + " @WAIT 11 @WB 2 @RB 1 @DEP 3 @Y;");
        }
    }
    // literals beyond the range of their type
    for (const char* t : {"FADD R1, R2, 0.000000000000000000000000000000000000000000000000001;", "FADD R1, R2, -1000000000000000000000000000000000000000000000.0;", "FMUL32I R1, R2, 0.000000000000000000000000000000000000000000000000001;", "HADD2 R1, R2, 1000000000000000000000000000000000000000000000.0, 0.000000000000000000000000000000000000000000000000001;", "DADD R0, R2, 0.000000000000000000000000000000000000000000000000001;", "FADD32I R1, R2, -1000000000000000000000000000000000000000000000.0;"}) text.push_back(t);
    const int N = int(text.size());
    run::all("pairs", size_t(N), [&](size_t k) {
        auto v = solos();
        for (int j = 0; j < N; ++j) {
            put({int(k), j}, v);
            put({j, j, int(k), j}, v);
            put({j, int(k), int(k)}, v);
            put({(j + 7) % N, j, int(k), (j + 13) % N, j}, v);
        }
        if (k % 50 == 3) run::sample(text[k] + text[size_t(N) - 1 - k]);
    });
    // triples: of all (thorough) or of one in nine
    std::vector<int> some;
    for (int i = 0; i < N; ++i)
        if (run::thorough ? i % 2 == 0 : i % 6 == 0) some.push_back(i);
    run::all("triples", some.size() * some.size(), [&](size_t k) {
        static std::vector<Solo> v; // per worker
        if (v.empty()) v = solos();
        for (int c : some) put({some[k % some.size()], some[k / some.size()], c}, v);
    });
    // every setting of the annotations next to plain and annotated instructions
    static const std::initializer_list<const char*> few = {"NOP;", "MOV R1, R2;", "FFMA R1, R2.reuse, R3, R4.reuse;", "@!P3 IADD R1, R2, 0x5 @WAIT 7 @RB 3;", "EXIT @Y @DEP 5;"};
    run::all("annotations", 16 * 64, [&](size_t k) {
        static std::vector<Part> probes = probes_of(few);
        const int stall = int(k % 16), deps = int(k / 16);
        for (int wb = 0; wb < 7; ++wb)
            for (int rb = 0; rb < 7; ++rb)
                for (int y = 0; y < 2; ++y)
                    for (int base = 0; base < (run::thorough ? 3 : 2); ++base) {
                        std::string t = base == 0 ? "NOP" : base == 1 ? "@P2 FFMA.FTZ R5, -R6.reuse, R7.reuse, R8.reuse" : "MOV R1, R2";
                        if (stall || base) t += " @WAIT " + std::to_string(stall);
                        if (wb < 6) t += " @WB " + std::to_string(wb);
                        if (rb < 6) t += " @RB " + std::to_string(rb);
                        for (int d = 0; d < 6; ++d)
                            if (deps >> d & 1) t += " @DEP " + std::to_string(d);
                        if (y) t += " @Y";
                        t += ";";
                        around({t, solo_of(t)}, probes);
                    }
    });
    // pairs of settings of the annotations
    {
        std::vector<std::string> notes;
        for (int stall : {0, 1, 15})
            for (int y = 0; y < 2; ++y)
                for (int wb : {6, 0, 5})
                    for (int rb : {6, 0, 4})
                        for (int deps : {0, 1, 32, 42, 63}) {
                            std::string t;
                            if (stall) t += " @WAIT " + std::to_string(stall);
                            if (y) t += " @Y";
                            if (wb < 6) t += " @WB " + std::to_string(wb);
                            if (rb < 6) t += " @RB " + std::to_string(rb);
                            for (int d = 0; d < 6; ++d)
                                if (deps >> d & 1) t += " @DEP " + std::to_string(d);
                            notes.push_back(t + ";");
                        }
        run::all("pairs of annotations", notes.size() * 2, [&](size_t k) {
            const char* const base[] = {"NOP", "@P2 FFMA R5, R6.reuse, R7, R8.reuse"};
            static std::vector<Part> all[2]; // per worker
            if (all[0].empty())
                for (int b = 0; b < 2; ++b)
                    for (auto& n : notes) all[b].push_back({base[b] + n, solo_of(base[b] + n)});
            const Part* const x = &all[k % 2][k / 2];
            for (int b = 0; b < 2; ++b)
                for (auto& y : all[b]) {
                    const Part* two[] = {x, &y};
                    const Part* four[] = {&y, &y, x, &y, x};
                    put(two, 2), put(four, 5);
                }
        });
        run::bound("all ordered pairs of " + std::to_string(2 * notes.size()) + " annotated instructions");
    }
    // the same mnemonic many times in a row, with the same and with other operands, guards and annotations
    run::all("repeated mnemonics", model::forms().size(), [&](size_t k) {
        for (auto& o : model::forms()[k].ops)
            if (o.kind == model::Op::Label) return;
        std::vector<Part> v;
        auto add = [&](std::string t) {
            v.push_back({t, solo_of(t)});
            t.pop_back();
            t += " @WAIT 11 @Y @WB 2 @RB 1 @DEP 3;";
            v.push_back({t, solo_of(t)});
        };
        const bool nopred = model::forms()[k].nopred;
        add(gen::simplest(int(k)));
        add(gen::rich(int(k)));
        if (!nopred) add("@P1 " + gen::simplest(int(k))), add("@!P6 " + gen::rich(int(k)));
        const size_t n = v.size();
        for (size_t len = 1, total = n; len <= 4; ++len, total *= n)
            for (size_t x = 0; x < total; ++x) {
                const Part* p[4];
                size_t y = x;
                for (size_t i = 0; i < len; ++i) p[i] = &v[y % n], y /= n;
                put(p, len);
            }
        for (size_t i = 0; i < n; ++i)
            for (size_t len : {5, 6, 7, 8, 9, 10, 16, 17, 32, 33, 64, 65, 100, 255, 256, 257, 300}) {
                const std::vector<const Part*> p(len, &v[i]);
                put(p.data(), len);
            }
    });
    run::bound("all sequences of up to 4 of 8 texts of the same form, and up to 300 times the same text");
    // every guard and every single choice of every operand next to unlike instructions
    static const std::initializer_list<const char*> many = {
        "NOP;", "MOV R1, R2;", "FFMA R1, R2.reuse, R3, R4.reuse;", "@!P3 IADD.X R1.CC, R2, -0x5 @WAIT 7 @RB 3;", "EXIT @Y @DEP 5;", "LDG.E.64 R4, [R6+0x10];", "FADD R1, |R2|, -1.5;",
        "TEXS R0, R1, R2, R3, 0x1, 2D, RGB;", "ISETP.GT.AND P0, PT, R1, c[0x1][0x4], !P2;", "KIL;", "XMAD.PSL R1, R2.H1, R3, R4;", "S2R R1, SR_TID.X;", "SHFL.IDX P0, R1, R2, 0x3, 0x4;", "PSETP.AND.OR P1, P2, P3, P4, !P5;"};
    run::all("single choices", model::forms().size(), [&](size_t k) {
        static std::vector<Part> probes = probes_of(many);
        for (auto& o : model::forms()[k].ops)
            if (o.kind == model::Op::Label) return;
        for (auto& g : gen::guards) {
            std::string t = g + gen::simplest(int(k));
            around({t, solo_of(t)}, probes);
        }
        gen::deviations(int(k), run::thorough ? 2 : 1, 1, -1, [&](auto& pick) {
            if (run::stop()) return;
            std::string t = gen::text(int(k), pick);
            around({t, solo_of(t)}, probes);
        });
    });
    // what the forms that are tried before the matching one may leave behind: mnemonics with several forms
    std::vector<int> tried;
    for (auto& f : model::forms()) {
        int same = 0;
        for (auto& g : model::forms()) same += g.mnemonic == f.mnemonic;
        if (same > 1) tried.push_back(f.index);
    }
    run::all("after other forms were tried", tried.size(), [&](size_t k) {
        const int f = tried[k];
        auto reuse = [&](const std::string& base) { // all subsets of its registers with .reuse
            auto t = gen::split_tokens(base);
            std::vector<size_t> regs;
            for (size_t i = 1; i < t.size(); ++i)
                if (t[i][0] == 'R' && (t[i] == "RZ" || isdigit(static_cast<unsigned char>(t[i][1]))) && t[i + 1] != ".reuse") regs.push_back(i);
            for (unsigned m = 0; m < 1u << regs.size(); ++m) {
                std::string s;
                for (size_t i = 0, r = 0; i < t.size(); ++i) {
                    s += t[i];
                    if (r < regs.size() && regs[r] == i) s += m >> r++ & 1 ? ".reuse " : " ";
                    else s += ' ';
                }
                conform(s, Accept, "left behind by another form");
                conform("@!P5 " + s + "NOP;", Accept, "left behind by another form");
                conform("NOP @WAIT 1;" + s, Accept, "left behind by another form");
                s.erase(s.rfind(';'));
                conform(s + "@WAIT 5 @WB 1 @DEP 2;" + s + ";", Accept, "left behind by another form");
            }
        };
        reuse(gen::rich(f));
        gen::deviations(f, run::thorough ? 3 : 2, 1, -1, [&](auto& pick) {
            if (run::stop()) return;
            std::string t = gen::text(f, pick);
            size_t away = 0;
            for (auto p : pick) away += p != 0;
            if (away < 2) reuse(t);
            else conform(t, Accept, "left behind by another form");
        });
    });
    run::bound(std::to_string(tried.size()) + " forms that share their mnemonic with others: all combinations of up to " + std::string(run::thorough ? "3" : "2") + " operand choices, with up to one all subsets of .reuse, against the reference model");
    run::bound("all 100352 settings of the annotations on " + std::string(run::thorough ? "3" : "2") + " instructions in 15 contexts; all 17 guards and all combinations of up to " + std::string(run::thorough ? "2" : "1") + " operand choices of every non-branch form in " + std::to_string(3 * many.size()) + " contexts");
    run::bound("all ordered pairs of " + std::to_string(N) + " instructions (simplest and richest text of every non-branch form) in 4 arrangements covering all slots; all ordered triples of " + std::to_string(some.size()) + " of them");
}

} // namespace check
