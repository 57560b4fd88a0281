// C12: no text can crash, hang or corrupt the assembler. Built with ASan, UBSan and library assertions: what they
// find ends the process, which the runner reports as a death with the text that caused it.
#include "check.hpp"
#include "edits.hpp"
#include <algorithm>
#include <cstring>
#include <set>

namespace check {
namespace {
// what printf writes for a null pointer tells that a message was made from something that is not there
bool null_pointer(const impl::Result& r, std::string_view text)
{
    return r.err.find("(null)") != std::string::npos && text.find("null") == std::string_view::npos;
}
bool proper(const impl::Result& r, std::string_view text) { return r.ok() || (r.rejected() && !null_pointer(r, text)); }

bool judge12(unsigned, std::string_view text, const char* kind)
{
    const impl::Result& r = run::assemble(text);
    if (proper(r, text)) return true;
    run::violation(kind, text, impl::describe(r));
    return false;
}

void put(std::string_view text)
{
    run::states();
    run::transitions(text.size());
    run::traces();
    if (!proper(run::assemble(text), text)) run::confirm(0, text, "crash");
}

// All strings of exactly n symbols, as items over the first two symbols.
void strings(const std::string& what, const std::vector<std::string>& sym, int n, const std::string& before = "", const std::string& after = "")
{
    const size_t k = sym.size();
    const int head = std::min(n, 2);
    size_t items = 1, rest = 1;
    for (int i = 0; i < n; ++i) (i < head ? items : rest) *= k;
    run::all(what + ", " + std::to_string(n) + " symbols of " + std::to_string(k), items, [&](size_t item) {
        std::string t;
        for (size_t x = 0; x < rest && !run::stop(); ++x) {
            t = before;
            size_t y = item;
            for (int i = 0; i < head; ++i) t += sym[y % k], y /= k;
            y = x;
            for (int i = head; i < n; ++i) t += sym[y % k], y /= k;
            t += after;
            put(t);
        }
    });
}

template <size_t N> std::vector<std::string> chars(const char (&s)[N])
{
    std::vector<std::string> v;
    for (size_t i = 0; i + 1 < N; ++i) v.push_back(std::string(1, s[i]));
    return v;
}

std::string repeat(std::string_view s, size_t n)
{
    std::string t;
    t.reserve(s.size() * n);
    while (n--) t += s;
    return t;
}
} // namespace

void c12()
{
    run::judge = judge12;
    std::vector<std::string> bytes;
    for (int i = 0; i < 256; ++i) bytes.push_back(std::string(1, char(i)));
    strings("bytes", bytes, 0);
    strings("bytes", bytes, 1);
    strings("bytes", bytes, 2);
    // characters that mean something to the scanner, and one or two of every other kind
    const auto big = chars("\0 \t\r\n\"!#%&'()*+,-./019:;<=@AaBbCcEeFfNnPpRrTtUuVvXxZz_[]{}|~\x7f\x80\xff");
    const auto mid = chars("\0 \n!+,-.018:;@ARPTZpx_[]c{");
    const auto small = chars("\n-.0:;@PRZ[c");
    strings("characters", big, 3);
    strings("characters", mid, 4);
    strings("characters", small, 5);
    if (run::thorough) {
        strings("characters", mid, 5);
        strings("characters", small, 6);
        strings("characters", small, 7);
        strings("characters", big, 4);
    }
    // the same inside an instruction and after a directive
    strings("after MOV", run::thorough ? big : mid, 3, "MOV R1, ");
    strings("after MOV", small, run::thorough ? 5 : 4, "MOV R1, ", ";");
    strings("inside c[", run::thorough ? big : mid, 3, "MOV R1, c[0x0][", "];");
    strings("inside [", run::thorough ? big : mid, 3, "LDG R1, [R2", "];");
    strings("a guard", mid, 3, "@", " NOP;");
    strings("annotations", mid, 3, "NOP @", ";");
    strings("modifiers", mid, 3, "FADD.", " R1, R2, R3;");
    strings("directives", mid, 3, ".", "\nNOP;");
    strings("directive values", mid, 3, ".num_gprs ", "\nNOP;");
    strings("directive values", mid, 3, ".dksh compute\nmain:\n.shared_memory ", "\nNOP;");
    strings("label definitions", mid, 3, "", ":\nNOP;\nBRA A;");
    strings("branch targets", mid, 3, "A:\nBRA ", ";");

    // numbers
    const auto digits = chars("0189abfxX.eE+-p_u");
    for (const char* place : {"MOV32I R1, ", "FADD32I R1, R2, ", "FADD R1, R2, ", "DADD R0, R2, ", "HADD2 R1, R2, ", "BRA ", "NOP @WAIT "})
        strings("numbers", digits, run::thorough ? 5 : 4, place, ";");
    for (auto& [place, end] : {std::pair("LDG R1, [R2", "];"), {"MOV R1, c[", "][0x0];"}, {"MOV R1, c[0x0][", "];"}, {"ATOMS.ADD.U32 R1, [R2", "], R3;"}})
        strings("numbers", digits, run::thorough ? 4 : 3, place, end);

    // tokens
    {
        std::vector<std::string> tok = {"MOV ", "BRA ", "NOP", "FADD ", "VMAD", "ISETP", ".FTZ", ".AND", "R1", "RZ", ".reuse", "P0", "PT", "!", "-", "|", ",", ";", "@", "@WAIT ", "c[", "[", "]", "0x7", "1.5", "lab", "lab:", "\n", ".dksh compute\n", ".num_gprs ", "main:\n"};
        strings("tokens", tok, 3);
        strings("tokens", tok, 4);
        if (run::thorough) strings("tokens", tok, 5);
    }
    // every prefix, byte deletion, insertion, replacement and swap of every form's texts
    {
        std::vector<std::string> base;
        std::set<std::string> seen;
        auto add = [&](const std::string& t) {
            if (seen.insert(t).second) base.push_back(t);
        };
        for (auto& f : model::forms()) {
            add(gen::simplest(f.index));
            std::string r = gen::rich(f.index);
            add(r);
            if (run::thorough) {
                r.pop_back();
                add("@!P2 " + r + " @WAIT 11 @WB 2 @RB 1 @DEP 3 @Y;");
            }
        }
        add("@!P2 IADD.SAT.X R1.CC, -R2.reuse, R3.reuse @WAIT 11 @WB 2 @RB 1 @DEP 3 @Y;");
        add(".dksh compute\n.num_gprs 17\n.workgroup_size 1 2 3\n.shared_memory 0x100\n.local_memory 16\nmain:\nNOP;\nBRA main;");
        add("a: b:\n\tBRA a;\r\nc:\nSSY c;\nSYNC;");
        const auto full = bytes;
        run::all("byte edits of every form", base.size(), [&](size_t k) {
            const std::string& b = base[k];
            const auto& alphabet = run::thorough ? full : mid;
            for (size_t i = 0; i <= b.size() && !run::stop(); ++i) {
                put(std::string_view(b).substr(0, i));
                put(std::string_view(b).substr(i));
                std::string t;
                for (auto& c : alphabet) {
                    t = b;
                    t.insert(i, c);
                    put(t);
                    put(std::string_view(t).substr(0, i + 1));
                    if (i < b.size()) {
                        t = b;
                        t.replace(i, 1, c);
                        put(t);
                    }
                }
                for (size_t j = i + 1; j <= b.size(); ++j) {
                    t = b;
                    t.erase(i, j - i);
                    put(t);
                }
                if (i + 1 < b.size()) {
                    t = b;
                    std::swap(t[i], t[i + 1]);
                    put(t);
                }
            }
            if (k % 90 == 7) run::sample(b.substr(0, b.size() / 2));
        });
        // legal and illegal combinations of operand choices
        struct Item { int form, first; };
        std::vector<Item> items;
        for (auto& f : model::forms())
            for (size_t i = 0; i < f.ops.size(); ++i)
                if (gen::choices()[f.index][i].alt.size() > 1) items.push_back({f.index, int(i)});
        run::all("operand combinations", items.size(), [&](size_t k) {
            gen::deviations(items[k].form, run::thorough ? 3 : 2, 1, items[k].first, [&](auto& pick) {
                if (!run::stop()) put(gen::text(items[k].form, pick));
            });
        });
        struct Part { int form; uint64_t b, e; };
        std::vector<Part> parts;
        for (auto& f : model::forms()) {
            uint64_t n = 1;
            for (auto& c : gen::choices()[f.index])
                if (c.modifier) n = std::min<uint64_t>(n * c.alt.size(), 1ULL << 40);
            for (uint64_t b = 0; b < n; b += 2000) parts.push_back({f.index, b, std::min(n, b + 2000)});
        }
        run::all("complete modifier products", parts.size(), [&](size_t k) {
            const auto& ch = gen::choices()[parts[k].form];
            std::vector<uint32_t> pick(ch.size(), 0);
            for (uint64_t x = parts[k].b; x < parts[k].e && !run::stop(); ++x) {
                uint64_t y = x;
                for (size_t i = 0; i < ch.size(); ++i)
                    if (ch[i].modifier) pick[i] = uint32_t(y % ch[i].alt.size()), y /= ch[i].alt.size();
                put(gen::text(parts[k].form, pick));
            }
        });
        // every kind of number in place of every number
        std::vector<std::string> number = {"0.0", "-0.0", "1.5", "0.1", "1e5", "1e-5", "1e39", "1.0e-50", "65504.0", "65520.0", "16777217.0", "9223372036854775808.0", "18446744073709551616.0",
                                           "18446744073709551615", "18446744073709551616", "99999999999999999999", "0x10000000000000000", "0xffffffffffffffff", "-0xffffffffffffffff", "-9223372036854775809"};
        for (int i = 0; i <= 70; ++i) number.push_back(std::to_string(i)), number.push_back("-" + std::to_string(i));
        for (int b = 6; b < 64; ++b)
            for (int d = -1; d <= 1; ++d) {
                const std::string u = std::to_string((1ULL << b) + uint64_t(int64_t(d)));
                number.push_back(u);
                number.push_back("-" + u);
            }
        std::vector<std::string> holders = base;
        for (auto& f : model::forms()) {
            std::string r = gen::rich(f.index);
            r.pop_back();
            holders.push_back(r + " @WAIT 11 @WB 2 @RB 1 @DEP 3 @Y;");
        }
        run::all("numbers in place of every number", holders.size(), [&](size_t k) {
            const auto t = gen::split_tokens(holders[k]);
            for (size_t i = 0; i < t.size(); ++i) {
                const char c = t[i][t[i].size() > 1 && (t[i][0] == '-' || t[i][0] == '+')];
                if (c < '0' || c > '9') continue;
                for (const std::string& n : number) {
                    if (run::stop()) return;
                    std::string x;
                    for (size_t j = 0; j < t.size(); ++j) x += (j == i ? n : t[j]) + " ";
                    put(x);
                }
            }
        });
        run::all("numbers in directives", 8, [&](size_t k) {
            static const char* const place[] = {".num_gprs #", ".shared_memory #", ".local_memory #", ".workgroup_size # 1 1", ".workgroup_size 1 # 1", ".workgroup_size 1 1 #", ".type #", ".dksh #"};
            for (const std::string& n : number) {
                std::string d = place[k];
                d.replace(d.find('#'), 1, n);
                put(d + "\nNOP;");
                put(".dksh compute\n" + d + "\nmain:\nNOP;");
                put(".dksh compute\n" + d + "\n" + d + "\nmain:\nNOP;");
                put("NOP;\n" + d + "\nNOP;");
            }
        });
        // every word of the language in place of and in front of every token
        run::all("words in every form", base.size(), [&](size_t k) {
            if (!run::thorough && k % 2 == 0 && k < 2 * model::forms().size()) return; // the richest texts
            const auto t = gen::split_tokens(base[k]);
            for (size_t i = 0; i < t.size(); ++i)
                for (const std::string& w : edits::vocabulary())
                    for (int insert = 0; insert < 2; ++insert) {
                        if (run::stop()) return;
                        std::string x;
                        for (size_t j = 0; j < t.size(); ++j) {
                            if (j == i) x += w + " ";
                            if (j != i || insert) x += t[j] + " ";
                        }
                        put(x);
                    }
        });
        // long words in place of and in front of every token
        run::all("long words in every form", base.size(), [&](size_t k) {
            const auto t = gen::split_tokens(base[k]);
            for (size_t i = 0; i < t.size(); ++i)
                for (size_t n : {64, 257, 1024, 4096, 70000}) {
                    if (run::stop() || (n > 1024 && !run::thorough && i != (k * 7) % t.size())) break;
                    for (const std::string& w : {std::string(n, 'x'), "." + std::string(n, 'X'), std::string(n, '9'), "R" + std::string(n, '0'), "P" + std::string(n, '1'), "-0x" + std::string(n, 'f'), "1." + std::string(n, '3'), t[i] + std::string(n, t[i].back())})
                        for (int insert = 0; insert < 2; ++insert) {
                            std::string x;
                            for (size_t j = 0; j < t.size(); ++j) {
                                if (j == i) x += w + " ";
                                if (j != i || insert) x += t[j] + " ";
                            }
                            put(x);
                        }
                }
        });
        // every known word, and every pair of a mnemonic and what may follow it at the end of the text
        const auto& words = edits::vocabulary();
        run::all("words of the language", words.size(), [&](size_t k) {
            const std::string& w = words[k];
            for (auto& after : mid) {
                put(w + after);
                for (auto& last : mid) put(w + after + last);
            }
            for (auto& v : words) {
                if (run::stop()) return;
                put(w + v);
                put(w + " " + v);
                put(w + "." + v);
            }
        });
    }
    // sizes: repetition of each symbol and of some phrases
    {
        std::vector<std::string> unit = bytes;
        for (const char* s : {"NOP;", "A:", "A:\n", "\nA: ", "BRA A;", ".FTZ", "R", "R1,", "@P0 ", "@DEP 1 ", "c[", "[[", ".a\n", ".num_gprs 1\n", "0x", "-0", "1e", "\n\n", "-", "-R1", "|", "!", "@!P0", "A:A:\nB:", "NOP @Y;", "MOV R1, ", ";;", "\0N"})
            unit.push_back(s);
        std::vector<size_t> sizes;
        for (size_t n = 2; n <= 300; ++n) sizes.push_back(n);
        for (size_t n : {511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8192}) sizes.push_back(n);
        run::all("repetitions", unit.size(), [&](size_t k) {
            for (size_t n : sizes) {
                if (run::stop()) return;
                std::string r = repeat(unit[k], n);
                put(r);
                put("MOV R1, " + r + ";");
                put("MOV R1, 0" + r + ";");
                put("." + r);
                put(r + ":\nBRA " + r + ";");
                put("LDG R1, [" + r);
                put("FADD R1, R2, 1." + r + ";");
                put("NOP @" + r + ";");
            }
        });
        run::all("large texts", unit.size(), [&](size_t k) {
            if (k >= 256 || std::strchr("\n\t A:;.@-0R", int(k))) {
                put(repeat(unit[k], 100000));
                put("BRA end;" + repeat("NOP;", 60000) + "end:\n" + repeat(unit[k], 20000));
            }
        });
    }
    // many different names, many instructions of every form
    std::vector<int> counts;
    for (int b = 4; b <= 16; ++b)
        for (int d = -1; d <= 1; ++d) counts.push_back((1 << b) + d);
    for (int n : {100, 1000, 10000, 100000}) counts.push_back(n);
    run::all("many names", counts.size() * 3, [&](size_t k) {
        const int n = counts[k / 3];
        std::string t;
        for (int i = 0; i < n; ++i) {
            const std::string l = (k % 3 == 1 ? "a_rather_long_name_of_a_label_" : "L") + std::to_string(i);
            t += l + ":\n";
            if (k % 3 == 2 && n <= 2049) t += "BRA " + l + ";\n";
        }
        put(t);
        put(t + "BRA L0;BRA L" + std::to_string(n - 1) + ";");
        put("NOP; BRA L" + std::to_string(n / 2) + ";BRA L" + std::to_string(n) + ";\n" + t);
        put(".dksh compute\n" + t + "main:\nNOP;");
    });
    run::all("many instructions", model::forms().size(), [&](size_t k) {
        const std::string s = gen::simplest(int(k)) + gen::rich(int(k));
        for (size_t n : {3, 100, 700, 1500}) put(repeat(s, n));
        put(repeat(gen::rich(int(k)), 200) + "FOO;");
    });
    run::bound("programs of up to 100000 different labels; 3000 instructions of every form");
    run::bound("all strings up to 2 bytes; 3 of 63, 4 of 26, 5 of 12 characters (thorough: 4 of 63, 5 of 26, 7 of 12); 3-4 of 26 characters in 13 contexts; 3-4 (5) of 17 number characters in 11 operand positions; up to 4 (5) of 31 tokens");
    run::bound("every prefix, suffix, substring deletion, single-byte insertion and replacement (26 bytes; thorough: 256) and adjacent swap of the simplest and richest text of every form");
    run::bound("operand choices of every form, up to 2 (3) away from the default, one over all alternatives; all combinations of modifiers of every form; every word of the language in place of and in front of every token of the richest text (thorough: both texts) of every form");
    run::bound("510 numbers in place of every number of every form, of its annotations and of the directives");
    run::bound("words of 8 kinds and up to 1024 (70000) characters in place of and in front of every token of every form");
    run::bound("all pairs of words of the language; every byte and 28 phrases repeated 2..300 and up to 8192 times in 8 contexts, phrases repeated 100000 times");
}

// The texts whose results are compared between builds that fill uninitialised memory differently.
void init_texts(const std::function<void(const std::string&)>& fn)
{
    for (auto& f : model::forms()) {
        const std::string s = gen::simplest(f.index), r = gen::rich(f.index);
        for (size_t i = 0; i < f.ops.size(); ++i)
            gen::deviations(f.index, 1, 1, int(i), [&](auto& pick) {
                const std::string t = gen::text(f.index, pick);
                fn(t);
                if (run::thorough) fn("@P3 " + t.substr(0, t.size() - 1) + " @WAIT 3 @RB 2;" + r);
            });
        for (const std::string& t : {s, r})
            for (size_t i = 0; i <= t.size(); ++i) {
                fn(t.substr(0, i));
                fn(t + "\n" + t.substr(0, i));
                fn(t.substr(0, i) + t.substr(std::min(i + 1, t.size())));
            }
        fn(s + r + s + s + r + r + s);
        fn(".dksh compute\n.num_gprs 9\nmain:\n" + s + r + "l:\nBRA l;");
        fn(".dksh compute\n.shared_memory 9\nmain:\n" + r);
        fn(".dksh compute\n.local_memory 9\n.workgroup_size 2 3 4\nmain:\n" + r);
    }
    // every byte in names, numbers and white space
    for (int i = 1; i < 256; ++i) {
        const std::string c(1, char(i));
        for (const std::string& t : {c + ":\nNOP;\nBRA " + c + ";", "a" + c + ":\nNOP;\nBRA a" + c + ";", c + "a:\nNOP;\nBRA " + c + "a;", "a" + c + "a:\nNOP;\nBRA a" + c + "a;", "NOP" + c + ";", "NOP;" + c, c + "NOP;",
                                      "MOV R1" + c + ", R2;", "MOV R1, 1" + c + ";", "FADD R1, R2, 1" + c + "5;", "FADD R1, R2, 1.5" + c + ";", "MOV R1, 0x1" + c + "2;", "MOV R1, 1" + c + "000;", "@P" + c + " NOP;", "x" + c + ": NOP;", ".num_gprs 1" + c + "\nNOP;"})
            fn(t);
    }
}

} // namespace check
