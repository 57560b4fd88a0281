// C13: diagnostics point at the offending token.
#include "check.hpp"
#include "edits.hpp"
#include <algorithm>
#include <set>

namespace check {

// everything else that can be wrong in a program
static std::vector<std::string> faulty_lines()
{
    std::vector<std::string> v = {
        "NOP", "NOP @", "NOP @WAIT", "NOP @WAIT 16;", "NOP @WAIT -1;", "NOP @WAIT 1 @WAIT 2;", "NOP @WB 6;", "NOP @WB 1 @WB 1;", "NOP @RB 6;", "NOP @RB 0 @RB 0;", "NOP @DEP 6;",
        "NOP @DEP 1 @DEP 1;", "NOP @Y @Y;", "NOP @YIELD @Y;", "NOP @X;", "NOP @;", "NOP @WAIT R1;", "@P7 NOP;", "@ NOP;", "@R1 NOP;", "@!P7 NOP;", "@!NOP;", "@P0 @P1 NOP;", "@P0;", "@P0", "@",
        "FOO;", "nop;", ";", ",", "R1;", "5;", "1.5;", "!", "!P", "!PX;", "P9;", "R255;", "RZZ;", "R999999999999999999999;", "0x;", "99999999999999999999;", "1.5x;", "0x1.5;", "12G;",
        "BRA nowhere;", "BRA 0x7fffffff;", "BRA -0x7fffffff;", "BRA 1.5;", "BRA R1;", "BRA;", "SSY;", "@P0 SSY 0;", "@P0 CAL 0;", "@!PT PBK 0;",
        ".unknown 1", ".dksh", ".dksh 5", ".dksh foo", ".dksh compute compute", ".dksh compute NOP;", ".type", ".type 1", ".type foo", ".num_gprs", ".num_gprs x", ".num_gprs 257",
        ".num_gprs -1", ".num_gprs 5 6", ".num_gprs 5 NOP;", ".num_gprs 1.5", ".num_gprs\n5", ".workgroup_size", ".workgroup_size 1", ".workgroup_size 1 2", ".workgroup_size 1 2 3 4",
        ".workgroup_size 1 x 3", ".workgroup_size 1 2 65536", ".workgroup_size 1, 2, 3", ".shared_memory", ".shared_memory -1", ".shared_memory 16777216", ".shared_memory R1", ".local_memory",
        ".local_memory 16777216", ".local_memory x", ".dksh compute\n.dksh compute", ".type compute\n.type compute", ".dksh compute\n.type compute", ".num_gprs 5", ".type compute",
        "FFMA32I R1, R2, 1.5, R3;", "MOV R1, c[0x20][0];", "MOV R1, c[0][0x2];", "MOV R1, c[0][0x8000];", "MOV R1.reuse, R2;", "IADD.PO R1, -R2, R3;", "TEXS.LL R1, R2, R3, R4, 0x1, 3D, RGB;",
        "TEXS R1, R2, R3, R4, 0x1, 2D, R;", "ATOMS.ADD.U32 R1, [R2+0x1], R3;", "LDG R1, [];", "LDG R1, [R2+0x800000];", "LDG R1, [0x1000000];", "I2I.S8.S8 R1, R2.H0;"};
    return v;
}

void c13()
{
    edits::run_all(edits::plain, Position, "wrong position");
    if (run::thorough) edits::run_all(edits::spread, Position, "wrong position");
    // layouts of the text before and inside the faulty line
    static const char* const before[] = {
        "", "\n", "\n\n\n", " ", "\t", "\t\t \t", "\r\n", "\r", "NOP;", "NOP;\n", "NOP; ", "NOP;\t", "NOP;\nEXIT;\n", "label:\n", "label:", " label: ", "label: ", "a:\nb:\tc:\n\t",
        "NOP;\n\n\t\tMOV R1, R2;\n  ", "\tMOV\tR1\t,\tR2\t;\t", "MOV\nR1\n,\nR2\n;\n", "NOP;NOP;NOP;NOP;", "NOP;\r\nNOP;\r\n", ".num_gprs 5\n", ".num_gprs 5\n\n\t", "\n.type compute\n",
        "x:NOP;\n", "@P0 NOP;\n@!P1 NOP @WAIT 1;\n", "MOV R1, 0x1ffff;\n", "FADD R1, R2, 1.5;\n", "a:b:c:\n", "\xc3\xa9\xe2\x82\xac: ", "x\x80\xff\x01\x7f:\t", "$%&/(){}=?: ", "TEX P0, R0, R1, R2, 0x1, 2D, 0x1;\n"};
    static const char* const gaps[] = {" ", "\t", "  \t ", "\n", "\r\n", " \n\t"};
    static const char* const after[] = {"", "\nNOP;\n", "\nFOO;\n", " @", "\n.unknown\n", ";"};
    const auto lines = faulty_lines();
    run::all("layouts", lines.size() * std::size(before), [&](size_t k) {
        const std::string& l = lines[k / std::size(before)];
        const char* b = before[k % std::size(before)];
        for (const char* g : gaps)
            for (const char* a : after) {
                if (run::stop()) return;
                std::string t = b;
                for (char c : l) {
                    if (c == ' ') t += g;
                    else t += c;
                }
                t += a;
                conform(t, Position, "wrong position");
                if (k % 300 == 5 && *a == ';') run::sample(t);
            }
    });
    // one wrong token in every form, in other layouts
    run::all("one wrong token, spread over lines", model::forms().size(), [&](size_t k) {
        for (const std::string& s : {gen::simplest(int(k)), gen::rich(int(k))}) {
            auto b = gen::split_tokens(s);
            for (size_t i = 0; i < b.size() && !run::stop(); ++i)
                for (const char* w : {"?", "R7", "@", "0x7fffffffffffffff", ".wrong", "P9", "R255", "1.5x", "", "|"}) {
                    auto t = b;
                    if (*w) t[i] = w;
                    else t.erase(t.begin() + long(i));
                    if (t.empty()) continue;
                    for (const char* g : {"\n", "\t", "\r\n\t ", "  "}) {
                        std::string x = "NOP;\n\t";
                        for (auto& y : t) x += y, x += g;
                        conform(x, Position, "wrong position");
                        conform("\tEXIT;" + x + "FOO", Position, "wrong position");
                    }
                }
        }
    });
    // all white space of up to 5 (6) characters
    const int W = run::thorough ? 6 : 5;
    uint64_t spaces = 0;
    for (uint64_t n = 4, i = 0; int(i) < W; ++i, n *= 4) spaces += n;
    run::ranges("all short white space", spaces, 128, [&](uint64_t b, uint64_t e) {
        for (uint64_t x = b; x < e; ++x) {
            uint64_t y = x, n = 4;
            int len = 1;
            while (y >= n) y -= n, n *= 4, ++len;
            std::string w;
            for (int i = 0; i < len; ++i) w += " \t\r\n"[y % 4], y /= 4;
            for (const std::string& t : {w + "FOO;", "NOP;" + w + "FOO;", "MOV R1," + w + "FOO;", "MOV R1, R2" + w + "FOO;", "a:" + w + "FOO;", "\n\tNOP;" + w + "a:" + w + "@P9 NOP;", ".num_gprs 5\n" + w + "FOO;",
                                         "@P0" + w + "MOV" + w + "R1" + w + ";", ".num_gprs" + w + "x", ".num_gprs" + w + "5" + w + "NOP" + w + "," , "NOP @WAIT" + w + "99;", "NOP;" + w + ".type" + w + "foo", "FADD" + w + "R1," + w + "R2," + w + "c[0]" + w + "[2];" + w})
                if (!run::stop()) conform(t, Position | Reject, "wrong position");
        }
    });
    run::bound("all white space of up to " + std::to_string(W) + " characters at 13 places");
    // file names
    run::all("file names", lines.size(), [&](size_t k) {
        for (unsigned i = 0; i < file_names().size(); ++i)
            for (const char* b : {"", "\n\n\t", "NOP; "})
                if (!run::stop()) conform(b + lines[k] + "\n", Position | file(i), "wrong position");
    });
    // far to the right and far down
    std::vector<int> sizes;
    for (int n = 1; n <= (run::thorough ? 3000 : 700); ++n) sizes.push_back(n);
    for (int b = 10; b <= 17; ++b)
        for (int d = -3; d <= 3; ++d) sizes.push_back((1 << b) + d);
    for (int n : {9999, 10000, 99999, 100000, 200000}) sizes.push_back(n);
    run::all("far positions", sizes.size(), [&](size_t k) {
        const size_t n = size_t(sizes[k]);
        auto rep = [&](const char* u, size_t m) {
            std::string t;
            while (m--) t += u;
            return t;
        };
        auto put = [&](const std::string& t) { if (!run::stop()) conform(t, Position | Reject, "wrong position"); };
        put(std::string(n, ' ') + "FOO;");
        put(std::string(n, '\n') + "FOO;");
        put(std::string(n, '\n') + " MOV\n R1 FOO;");
        put("MOV R1," + std::string(n, ' ') + "FOO;");
        put("MOV R1," + std::string(n, '\n') + " FOO;");
        put("MOV R1, R2" + std::string(n, '\t') + "FOO;");
        put("MOV R1, R2" + std::string(n, '\r') + "FOO;");
        put(rep("NOP;", n) + "FOO;");
        put(rep("NOP;\n", n) + "\tFOO;");
        put(rep("\t\r\n", n) + "\tFOO;");
        put(rep("MOV\nR1,\nR2;", n) + "\t@P9 FOO;");
        put(rep("a:", n) + "FOO;");
        put(rep("a:\n", n) + "FOO;");
        put(rep("\n\n ", n) + ".type compute\n" + std::string(n, ' ') + ".type compute\n");
        put(std::string(n, 'x') + " R1;");
        put("NOP; " + std::string(n, 'x') + ":FOO;\n");
        put("BRA " + std::string(n, 'x') + ";");
        put("MOV R1, 0x" + std::string(n, '0') + "1 FOO;");
        put("FADD R1, R2, 1." + std::string(n, '5') + " FOO;");
        put("MOV R1, R2" + rep(" @DEP 1", n) + ";");
        put("FOO;" + std::string(n, '\n'));
        put("FOO;" + std::string(n, ' '));
        put(" FOO;\n" + rep("a:\nNOP;\n", n) + "   NOP; ");
    });
    run::bound(std::to_string(file_names().size()) + " file names for each faulty line; 23 layouts with the fault at every line and column up to " + std::to_string(run::thorough ? 3000 : 700) + " and around powers of two up to 131072");
    run::bound(std::to_string(lines.size()) + " faulty lines x " + std::to_string(std::size(before)) + " preceding texts x 6 separators x 6 following texts; 10 wrong tokens at every place of every form in 8 layouts");
}

} // namespace check
