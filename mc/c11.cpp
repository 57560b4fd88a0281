// C11: directives are honoured or rejected, never ignored or misread.
#include "check.hpp"
#include "edits.hpp"

namespace check {
static void put(const std::string& t) { if (!run::stop()) conform(t, Accept | Reject, "directive"); }

void c11()
{
    static const char* const good[] = {".dksh compute", ".type compute", ".num_gprs 17", ".num_gprs 200", ".workgroup_size 4 5 6", ".workgroup_size 7 8 9", ".shared_memory 1000", ".shared_memory 0x2000", ".local_memory 48", ".local_memory 0"};
    static const char* const bad[] = {
        ".dksh", ".type", ".dksh vertex", ".type fragment", ".type nothing", ".num_gprs", ".num_gprs x", ".num_gprs -1", ".num_gprs 257", ".num_gprs 1 2", ".num_gprs 1;", ".num_gprs R1", ".num_gprs 1.5", ".num_gprs 0x", ".num_gprs PT", ".num_gprs ,",
        ".num_gprs .num_gprs", ".num_gprs 5 .num_gprs 6", ".num_gprs 5 NOP;", ".workgroup_size", ".workgroup_size 1", ".workgroup_size 1 2", ".workgroup_size 1 2 3 4", ".workgroup_size 1,2,3", ".workgroup_size 1 2 x", ".workgroup_size x 2 3",
        ".workgroup_size 1 -2 3", ".workgroup_size 1 2 65536", ".workgroup_size 1\n2 3", ".shared_memory", ".shared_memory -1", ".shared_memory 16777216", ".shared_memory x", ".shared_memory 1 2", ".shared_memory\n5", ".local_memory", ".local_memory -1",
        ".local_memory 16777216", ".local_memory x", ".local_memory 1 2", ".local_memory\n5", ".unknown", ".unknown 1", ".", "..", ".Dksh compute", ".NUM_GPRS 5", ".num_gpr 5", ".num_gprss 5", ".num_gprs5", ". num_gprs 5", "num_gprs 5", ".entry main",
        ".type\ncompute", ".dksh\ncompute", ".type compute NOP;", ".dksh compute main:", ".num_gprs 5 main:", ".dksh compute x", ".type compute 5", ".num_gprs 99999999999999999999", ".num_gprs 4294967304", ".shared_memory 4294967304", ".local_memory 4294967304",
        ".workgroup_size 4294967297 2 3", ".workgroup_size 1 2 4294967297", ".num_gprs \r\n5", ".num_gprs 5 @", ".FTZ", ".reuse", ".num_gprs 1-1", ".num_gprs 010", ".num_gprs +8", ".num_gprs 0X1F", "\t.num_gprs\t9\t", "  .type   compute  ", ".num_gprs 9\r"};
    std::vector<std::string> lines(std::begin(good), std::end(good));
    lines.insert(lines.end(), std::begin(bad), std::end(bad));
    const size_t N = lines.size(), G = std::size(good);
    // bodies: D marks the place of the directives; \1, \2: second and third place
    static const char* const body[] = {"D\nmain:\nNOP;\nMOV R1, R2;\nEXIT;\n", "main:\nNOP;\nD\nMOV R1, R2;\nEXIT;\n", "main:\nNOP;\nMOV R1, R2;\nEXIT;\nD\nIADD R1, R2, R3;\n", "main:\nNOP;\nD\n", "main: NOP;D\nNOP;\n", "D\n", "main:\nD\nmain:\nNOP;\n", "D NOP;", "D", "main:\nNOP;\nD"};
    auto fill = [](const std::string& b, const std::string& d) {
        std::string t = b;
        t.replace(t.find('D'), 1, d);
        return t;
    };
    run::all("single lines and pairs", N, [&](size_t k) {
        for (const char* b : body) {
            put(fill(b, lines[k]));
            for (size_t j = 0; j < N; ++j) {
                put(fill(b, lines[k] + "\n" + lines[j]));
                put(fill(b, lines[k] + "\r\n\n " + lines[j]));
                put(".dksh compute\n" + fill(b, lines[k] + "\n" + lines[j]));
            }
        }
        if (k % 9 == 1) run::sample(fill(body[1], lines[k]));
    });
    // every word of the language behind a directive on its line, alone and in front of an instruction
    run::all("text behind a directive", G, [&](size_t k) {
        std::vector<std::string> tail = edits::vocabulary();
        for (const char* w : {"@P0 NOP", "@!PT", "@ P0 NOP", "l: NOP", "l:", "a:b:", "R1 , R2", "0 0 0", "1 2 3", "@WAIT 3", ";NOP", "\v", "\f"}) tail.push_back(w);
        for (size_t j = 0; j < G; ++j) tail.push_back(lines[j]);
        for (auto& m : model::mnemonics()) tail.push_back(m);
        for (auto& f : model::forms()) tail.push_back(gen::simplest(f.index)), tail.push_back("@!P1 " + gen::rich(f.index));
        for (auto& w : tail)
            for (const char* gap : {" ", "\t", "", "\r", "\n", " \r \n\r\n "})
                for (const char* end : {"", ";", " NOP;", "\n", "\nNOP;\n", "\n;NOP;", "\n.num_gprs 6\nNOP;", " ;\n.num_gprs 6\nNOP;"}) {
                    put(lines[k] + gap + w + end);
                    put("MOV R1,R2;\n" + lines[k] + gap + w + end);
                }
    });
    // one directive before each of several instructions
    run::all("different places", G * G * G, [&](size_t k) {
        const std::string a = lines[k % G], b = lines[k / G % G], c = lines[k / (G * G)];
        for (const char* head : {"", ".dksh compute\n", ".type compute\n"})
            for (int p1 = 0; p1 < 4; ++p1)
                for (int p2 = p1; p2 < 5; ++p2)
                    for (int p3 = p2; p3 < 5; ++p3) {
                        std::string t = head;
                        for (int i = 0; i < 6; ++i) {
                            if (i == 0) t += "main:\n";
                            if (i == p1) t += a + "\n";
                            if (i == p2) t += b + "\n";
                            if (i == p3) t += c + "\n";
                            t += "NOP;\n";
                        }
                        put(t);
                    }
    });
    // far from the start: after n instructions, n lines, n other directives
    std::vector<int> far;
    for (int n = 1; n <= (run::thorough ? 1000 : 300); ++n) far.push_back(n);
    for (int b = 9; b <= 17; ++b)
        for (int d = -1; d <= 1; ++d) far.push_back((1 << b) + d);
    run::all("directives far from the start", far.size(), [&](size_t k) {
        const int n = far[k];
        auto rep = [&](const char* u) {
            std::string t;
            for (int i = 0; i < n; ++i) t += u;
            return t;
        };
        for (size_t j = 0; j < G + 5; ++j) {
            const std::string d = j < G ? lines[j] : bad[(j - G) * 13 % std::size(bad)];
            const std::string head = j < 2 ? "" : k % 2 ? ".dksh compute\n" : ".type compute\n";
            put(head + "main:\n" + rep("NOP;") + "\n" + d + "\nMOV R1, R2;");
            put(head + "main:\n" + rep("NOP;\n") + d + "\n");
            put(head + std::string(size_t(n), '\n') + d + "\nmain:\nMOV R1, R2;");
            put(head + std::string(size_t(n), ' ') + d + "\nmain:\nMOV R1, R2;");
            put(head + rep(".num_gprs 3\n") + d + "\nmain:\nMOV R1, R2;");
            put(head + "main:\n" + rep(".local_memory 3\nNOP;\n") + d + "\nMOV R1, R2;");
            if (j < 2) put(rep(".num_gprs 3\n") + d + "\n" + d + "\nmain:\nNOP;");
        }
    });
    run::bound(std::to_string(G + 5) + " directives after 1.." + std::to_string(run::thorough ? 1000 : 300) + " and 2^9..2^17 +-1 instructions, lines, blanks or other directives");
    // values of each directive in front of and behind the container directive, alone, repeated and between others
    static const char* const names[] = {".num_gprs ", ".shared_memory ", ".local_memory ", ".workgroup_size 2 3 ", ".workgroup_size 4 ", ".workgroup_size "};
    static const int64_t top[] = {256, (1 << 24) - 1, (1 << 24) - 1, 65535, 65535, 65535};
    run::all("values and places", std::size(names) * 66, [&](size_t k) {
        const size_t which = k / 66;
        const int part = int(k % 66);
        const std::string tail = which == 4 ? " 5" : which == 5 ? " 6 7" : "";
        auto one = [&](int64_t x) {
            for (const std::string& n : {std::to_string(x)}) {
                const std::string d = names[which] + n + tail + "\n", c = "main:\nMOV R1, R2;\n", t = ".dksh compute\n", o = names[which] + std::string("7") + tail + "\n";
                put(d + t + c);
                put(t + d + c);
                put(t + c + d + "NOP;\n");
                put(c + d + t + "NOP;\n");
                put(t + d + o + c);
                put(t + o + d + c);
                put(t + ".num_gprs 33\n.shared_memory 1000\n.local_memory 2000\n.workgroup_size 8 9 10\n" + d + c);
                put(t + d + (which ? ".num_gprs 33\n" : "") + (which != 1 ? ".shared_memory 1000\n" : "") + (which != 2 ? ".local_memory 2000\n" : "") + (which < 3 ? ".workgroup_size 8 9 10\n" : "") + c);
                put(".type compute\n" + d + c);
            }
        };
        if (part == 65) {
            for (int64_t x = -20; x <= 300; ++x) one(x);
            for (int d = -20; d <= 20; ++d) one(top[which] + d);
        } else if (part == 64) {
            for (int64_t x = 0; x <= top[which]; x += std::max<int64_t>(1, top[which] / (run::thorough ? 16384 : 2048))) one(x);
        } else {
            const int64_t b = int64_t(uint64_t(1) << part);
            for (int d = -2; d <= 2; ++d) one(part == 63 && d < 0 ? INT64_MAX + d : part == 63 ? INT64_MIN + d : b + d), one(-(b / 2) + d);
            if (part < 62) one(b + b / 2), one(b + b / 4), one(b + b / 2 + b / 4);
        }
    });
    run::bound("every value -20..300, limits +-20, powers of two +-2 and their sums, and a sweep of " + std::string(run::thorough ? "16384" : "2048") + " values for every directive at 9 places relative to the container and other directives");
    // pairs of values of different directives, and values together with every program type
    run::all("pairs of values", 36, [&](size_t k) {
        static const int64_t value[] = {0, 1, 2, 7, 8, 31, 32, 33, 63, 64, 127, 128, 254, 255, 256, 257, 300, 511, 512, 1023, 1024, 1025, 4095, 4096, 16383, 16384, 32767, 32768, 32769, 49151, 49152, 49153, 65535, 65536, 65537, 0x18000, 0x20000, 0x7fffff, 0x800000, 0xfffffe, 0xffffff, 0x1000000};
        const size_t a = k / 6, b = k % 6;
        auto line = [&](size_t which, int64_t x) { return names[which] + std::to_string(x) + (which == 4 ? " 5" : which == 5 ? " 6 7" : "") + "\n"; };
        for (int64_t x : value)
            for (int64_t y : value) {
                const std::string d = line(a, x) + line(b, y);
                put(".dksh compute\n" + d + "main:\nMOV R1, R2;\n");
                put(line(a, x) + ".dksh compute\nmain:\nMOV R1, R2;\n" + line(b, y) + "NOP;\n");
            }
    });
    run::all("values and types", 6, [&](size_t k) {
        for (const char* kind : {".type ", ".dksh "})
            for (const char* type : {"vertex", "tess_control", "hull", "tess_eval", "domain", "geometry", "fragment", "pixel", "compute", "Vertex", "COMPUTE", "compute.", "none"}) {
                const std::string t = kind + std::string(type) + "\n", tail = k == 4 ? " 5\n" : k == 5 ? " 6 7\n" : "\n";
                auto one = [&](int64_t x) {
                    const std::string d = names[k] + std::to_string(x) + tail;
                    put(t + d + "main:\nNOP;");
                    put(d + t + "main:\nNOP;");
                    put("main:\nNOP;\n" + t + d + "NOP;");
                    put("main:\nNOP;\n" + d + t + "NOP;");
                };
                for (int64_t x = -2; x <= 260; ++x) one(x);
                for (int b = 9; b <= 33; ++b)
                    for (int d = -1; d <= 1; ++d) one((1LL << b) + d);
            }
    });
    // any program type after any number of instructions
    run::all("types and places", 13, [&](size_t k) {
        static const char* const type[] = {"vertex", "tess_control", "hull", "tess_eval", "domain", "geometry", "fragment", "pixel", "compute", "Vertex", "COMPUTE", "compute.", "none"};
        for (const char* kind : {".type ", ".dksh "})
            for (int n = 0; n <= 40; ++n) {
                std::string code;
                for (int i = 0; i < n; ++i) code += "NOP;\n";
                for (const char* label : {"", "main:\n"})
                    for (const char* more : {"", "NOP;\n", "main:\nNOP;\n", ".type compute\nNOP;\n", ".dksh vertex\nNOP;\n", ".num_gprs 5\nNOP;\n"}) {
                        put(label + code + kind + type[k] + "\n" + more);
                        put(".num_gprs 9\n" + (label + code) + kind + type[k] + "\n" + more);
                    }
            }
    });
    // lines of directives that start far to the right
    run::all("far columns", lines.size(), [&](size_t k) {
        for (int n : {1, 2, 7, 8, 31, 32, 63, 64, 79, 80, 81, 100, 127, 128, 132, 199, 200, 201, 254, 255, 256, 257, 300, 511, 512, 1000, 1023, 1024, 1025, 2000, 4095, 4096, 4097, 10000, 32767, 32768, 65535, 65536})
            for (char c : {' ', '\t'}) {
                const std::string d = std::string(size_t(n), c) + lines[k];
                put(d + "\nmain:\nNOP;");
                put(".dksh compute\n" + d + "\nmain:\nNOP;");
                put("main: NOP;" + d + "\nNOP;");
                put("main: NOP;" + d + " NOP;");
            }
    });
    run::bound("42 x 42 values of every pair of directives; 338 values of every directive with 13 program types; program types after 0..40 instructions; all directive lines at 38 columns up to 65536");
    // all sequences of legal directives
    const int L = run::thorough ? 6 : 5;
    uint64_t total = 1;
    for (int i = 0; i < L; ++i) total *= G;
    run::ranges("sequences of legal directives", total, 5000, [&](uint64_t b, uint64_t e) {
        for (uint64_t x = b; x < e; ++x) {
            std::string t;
            uint64_t y = x;
            for (int i = 0; i < L; ++i) t += good[y % G], t += '\n', y /= G;
            put(t + "main:\nNOP;\nMOV R1, R2;\n");
            if (x % 7 == 0) put(".dksh compute\n" + t + "main:\nNOP;\nMOV R1, R2;\n");
        }
    });
    // a directive before any instruction form: it must not change the code
    run::all("before every form", model::forms().size(), [&](size_t k) {
        for (size_t j = 0; j < G; ++j)
            for (const std::string& s : {gen::simplest(int(k)), gen::rich(int(k))}) {
                put(lines[j] + "\n" + s);
                put(s + "\n" + lines[j] + "\n" + s);
                put(s + lines[j] + "\n" + s + "main: " + s);
            }
    });
    // all words as a directive
    static const char alphabet[] = "abdeghklmnoprstuwyz_015. ";
    constexpr int A = int(std::size(alphabet)) - 1;
    run::ranges("short directive names", uint64_t(A) * A * A * (run::thorough ? A : 1), 3000, [&](uint64_t b, uint64_t e) {
        for (uint64_t x = b; x < e; ++x) {
            std::string t = ".";
            for (uint64_t y = x, i = 0; i < (run::thorough ? 4 : 3); ++i) t += alphabet[y % A], y /= A;
            put(t + "\nNOP;");
            put(t + " 5\nNOP;");
        }
    });
    // misspellings of the known names: every character removed, replaced or inserted
    run::all("misspelt names", G, [&](size_t k) {
        for (size_t i = 0; i < lines[k].size(); ++i)
            for (char c : std::string("aA0._- \t\n;,")) {
                std::string t = lines[k];
                t[i] = c;
                put(t + "\nNOP;");
                t = lines[k];
                t.insert(i, 1, c);
                put(t + "\nNOP;");
                t = lines[k];
                t.erase(i, 1);
                put(t + "\nNOP;");
            }
    });
    run::bound(std::to_string(N) + " directive lines (" + std::to_string(G) + " legal) alone and in all pairs at 10 places of a program (also at the very end of the text); every legal directive followed by each word, mnemonic, directive and instruction form of the language on the same or the next line in 6 x 8 layouts; all sequences of " + std::to_string(L) + " legal directives; all triples at all places of a 6-instruction program; every legal directive before and between two texts of every form; all one-character edits of the known names");
}

} // namespace check
