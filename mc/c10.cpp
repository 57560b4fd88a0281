// C10: the shader container describes its code exactly.
#include "check.hpp"

namespace check {
static void put(const std::string& t) { if (!run::stop()) conform(t, Accept | Reject, "container"); }

static std::string program(int n, int main_at, const char* body = "NOP;\n")
{
    std::string t;
    for (int i = 0; i <= n; ++i) {
        if (i == main_at) t += "main:\n";
        if (i < n) t += i % 4 == 2 ? "MOV R1, R2;\n" : body;
    }
    return t;
}

void c10()
{
    // code size and entry point
    const int max = run::thorough ? 400 : 130;
    run::all("size x entry point", size_t(max) + 1, [&](size_t n) {
        for (int m = -1; m <= int(n); ++m) {
            put(".dksh compute\n" + program(int(n), m));
            if (m % 3 == 0) {
                put(".dksh compute\n.num_gprs 33\n.local_memory 40\n" + program(int(n), m));
                put(".type compute\n" + program(int(n), m));
            }
        }
        put(program(int(n), -1));
        if (n == 13) run::sample(".dksh compute\n" + program(3, 3));
    });
    const int sizes = run::thorough ? 12000 : 4000;
    run::all("sizes", size_t(sizes) / 50, [&](size_t k) {
        for (int n = int(k) * 50; n < int(k + 1) * 50; ++n) put(".dksh compute\n" + program(n, 0, "EXIT;"));
    });
    // entry points and code far from the start
    std::vector<int> far;
    for (int b = 8; b <= (run::thorough ? 20 : 18); ++b)
        for (int d = -2; d <= 2; ++d) far.push_back((1 << b) + d);
    for (int n : {1000, 2047 * 3, 2048 * 3, 2731, 10000, 33333, 65536 / 3, 100000}) far.push_back(n);
    run::all("far entry points", far.size(), [&](size_t k) {
        const int n = far[k];
        for (int d = 0; d < 3; ++d)
            for (int more : {0, 1, 50}) put(".dksh compute\n" + program(n + d + more, n + d));
    });
    // around 2^24 bytes of code
    run::all("very far entry points", 4, [&](size_t k) {
        const int n = int(3 * (1 << 24) / 32) + int(k) * 3 - 3;
        put(".dksh compute\n" + program(n + 1, n));
        run::alive();
    });
    // values of each directive
    struct V { const char* name; int64_t max; };
    static const V vs[] = {{".num_gprs ", 256}, {".shared_memory ", (1 << 24) - 1}, {".local_memory ", (1 << 24) - 1}, {".workgroup_size ", 65535}};
    run::all("values", 4 * 64, [&](size_t k) {
        const V& v = vs[k / 64];
        const std::string code = "main:\nMOV R1, R2;\nEXIT;\n";
        auto one = [&](int64_t x) {
            std::string s = std::to_string(x);
            if (k / 64 == 3) {
                put(".dksh compute\n.workgroup_size " + s + " 2 3\n" + code);
                put(".dksh compute\n.workgroup_size 2 " + s + " 3\n" + code);
                put(".dksh compute\n.workgroup_size 2 3 " + s + "\n" + code);
            } else {
                put(".dksh compute\n" + std::string(v.name) + s + "\n" + code);
            }
        };
        const int part = int(k % 64);
        const int64_t lin = run::thorough ? 70000 : 12000; // all small values
        for (int64_t x = -200 + part; x < lin; x += 64) one(x);
        // below and above every power of two up to 2^63, and the upper limit
        if (part < 63)
            for (int d = -17; d <= 17; ++d) one(int64_t(uint64_t(1) << part) + d), one(-(int64_t(1) << part) + d);
        for (int d = -40; d <= 40; ++d)
            if ((d + 40) % 64 == part) one(v.max + d);
        // a coarse sweep of the whole range
        for (int64_t x = part * 257; x <= v.max; x += run::thorough ? 64 * 257 : 64 * 4099) one(x);
    });
    // the three dimensions, and pairs of numeric directives, together
    std::vector<int> dim;
    for (int i = 0; i <= (run::thorough ? 140 : 48); ++i) dim.push_back(i);
    for (int b = 5; b <= 16; ++b)
        for (int d = -1; d <= 1; ++d) dim.push_back((1 << b) + d);
    for (int i : {100, 96, 192, 384, 768, 1000, 1536, 3072, 48000, 49152}) dim.push_back(i);
    const size_t nd = dim.size();
    run::all("dimensions", nd * nd, [&](size_t k) {
        for (int c : dim) put(".dksh compute\n.workgroup_size " + std::to_string(dim[k % nd]) + " " + std::to_string(dim[k / nd]) + " " + std::to_string(c) + "\nmain:\nEXIT;\n");
    });
    static const int mem[] = {0, 1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 128, 255, 256, 257, 511, 512, 513, 1024, 4096, 32768, 49152, 65535, 65536, 65537, 98304, 1 << 20, (1 << 24) - 1};
    const size_t nm = std::size(mem);
    run::all("sizes of memory with registers", nm * nm, [&](size_t k) {
        for (int g : {-1, 0, 1, 3, 4, 5, 8, 31, 32, 33, 63, 64, 65, 127, 128, 168, 254, 255, 256}) {
            std::string t = ".dksh compute\n.shared_memory " + std::to_string(mem[k % nm]) + "\n.local_memory " + std::to_string(mem[k / nm]) + "\n";
            if (g >= 0) t += ".num_gprs " + std::to_string(g) + "\n";
            put(t + "main:\nMOV R1, R2;\nEXIT;\n");
            put(t + ".workgroup_size " + std::to_string(dim[size_t(g + 1) % nd]) + " 1 1\nmain:\nNOP;\nEXIT;\n");
        }
    });
    // combinations
    static const char* const gp[] = {"", ".num_gprs 0\n", ".num_gprs 255\n", ".num_gprs 256\n"};
    static const char* const wg[] = {"", ".workgroup_size 1 2 3\n", ".workgroup_size 65535 65534 65533\n", ".workgroup_size 0 0 0\n"};
    static const char* const shm[] = {"", ".shared_memory 0\n", ".shared_memory 1\n", ".shared_memory 256\n", ".shared_memory 257\n", ".shared_memory 16777215\n"};
    static const char* const lm[] = {"", ".local_memory 0\n", ".local_memory 1\n", ".local_memory 16\n", ".local_memory 17\n", ".local_memory 16777215\n"};
    static const char* const ty[] = {".dksh compute\n", ".type compute\n", "", ".dksh vertex\n", ".dksh fragment\n", ".type vertex\n", ".type geometry\n"};
    run::all("combinations", 4 * 4 * 6 * 6, [&](size_t k) {
        std::string d = std::string(gp[k % 4]) + wg[k / 4 % 4] + shm[k / 16 % 6] + lm[k / 96];
        for (const char* t : ty)
            for (int n : {1, 2, 3, 23, 24, 25, 48})
                for (int m : {0, 3, 1}) {
                    put(t + d + program(n, m));
                    put(d + t + program(n, m));
                }
    });
    // kinds of programs, spelling of the entry point
    static const char* const kinds[] = {"vertex", "tess_control", "hull", "tess_eval", "domain", "geometry", "fragment", "pixel", "compute", "Compute", "comput", "computes", "mesh", "0", "5", "", "compute compute", ".compute", "main"};
    static const char* const mains[] = {"main:\n", "Main:\n", "main :\n", " main:\n", "\nmain:\n", "main: ", "main:", "mai:\n", "main1:\n", "main:\nmain:\n", "NOP;NOP;NOP;\nmain:\n", "NOP;\nmain:\n", "main:\nNOP;\nmain:\n", "NOP;\nmain:\nNOP;NOP;\nmain:\n", "x:main:\n", "main:x:\n", ""};
    run::all("types and entry points", std::size(kinds) * std::size(mains), [&](size_t k) {
        std::string t = kinds[k % std::size(kinds)], m = mains[k / std::size(kinds)];
        for (const char* d : {".dksh ", ".type ", ".dksh", ".type"})
            for (int n : {0, 1, 3, 30}) {
                put(d + t + "\n" + m + program(n, -1));
                put("\n" + program(1, -1) + d + t + "\n" + m + program(n, -1));
            }
    });
    run::bound("all code sizes 0.." + std::to_string(max) + " with main before every instruction, at the end or missing; all sizes up to " + std::to_string(sizes - 1) +
               "; main around 2^24 bytes; main behind " + std::to_string(far.size()) + " x 3 numbers of instructions around powers of two up to 2^" + (run::thorough ? "20" : "18") + "; all values -200.." + std::to_string(run::thorough ? 70000 : 12000) + ", all powers of two +-17, limits +-40 and a sweep of the range for every directive; all triples over " + std::to_string(nd) + " dimensions; 784 pairs of memory sizes x 19 numbers of registers; 576 combinations of directives x 7 types x 7 sizes x 3 entry points x 2 orders");
}

} // namespace check
