#include "check.hpp"
#include <clocale>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iterator>
#include <locale>
#include <unistd.h>

int main(int argc, char** argv)
{
    if (std::getenv("MC_LOCALE")) { // a host program may have chosen a locale
        if (!std::setlocale(LC_ALL, "")) return 3;
        std::locale::global(std::locale(""));
    }
    if (argc >= 3 && !std::strcmp(argv[1], "show")) {
        // prints what the model and the code say about a file
        std::ifstream f(argv[2], std::ios::binary);
        std::string t((std::istreambuf_iterator<char>(f)), {});
        model::Program p = model::assemble(t);
        const impl::Result& r = impl::assemble(t);
        std::printf("model: %s", p.ok ? check::hex(p.words).c_str() : "rejects at");
        if (!p.ok)
            for (auto& w : p.where) std::printf(" %d:%d", w.line, w.col);
        std::printf("\ncode:  %s\n", impl::describe(r).c_str());
        return p.ok == r.ok() && (!p.ok || p.words == r.words) ? 0 : 1;
    }
    if (argc >= 4 && !std::strcmp(argv[1], "dump")) {
        // one digest per text of init_texts() into a file; with a number: that text
        run::thorough = !std::strcmp(argv[2], "thorough");
        uint64_t n = 0, want = argc > 4 ? std::strtoull(argv[4], nullptr, 10) : 0;
        FILE* f = std::fopen(argv[3], "wb");
        if (!f) return 2;
        check::init_texts([&](const std::string& t) {
            if (argc > 4) {
                if (n++ == want) std::fwrite(t.data(), 1, t.size(), f);
                return;
            }
            const impl::Result& r = impl::assemble(t);
            uint64_t h = 1469598103934665603ULL;
            auto mix = [&](uint64_t x) { h = (h ^ x) * 1099511628211ULL; h ^= h >> 29; };
            mix(uint64_t(r.kind));
            mix(uint64_t(r.status));
            for (uint64_t w : r.words) mix(w);
            for (char c : r.err) mix(uint64_t(c));
            std::fwrite(&h, 8, 1, f);
        });
        std::fclose(f);
        return 0;
    }
    if (argc < 4) return 2;
    std::string id = argv[1];
    run::thorough = !std::strcmp(argv[2], "thorough");
    if (const char* j = std::getenv("MC_JOBS")) run::jobs = std::atoi(j);
    struct { const char* id; void (*fn)(); } table[] = {
        {"C01", check::c01}, {"C02", check::c02}, {"C03", check::c03}, {"C04", check::c04}, {"C05", check::c05},
        {"C06", check::c06}, {"C07", check::c07}, {"C08", check::c08}, {"C09", check::c09}, {"C10", check::c10},
        {"C11", check::c11}, {"C12", check::c12}, {"C13", check::c13}, {"C14", check::c14}, {"C15", check::c15}, {"C16", check::c16}, {"C17", check::c17}, {"C18", check::c18},
    };
    for (auto& e : table)
        if (id == e.id) {
            e.fn();
            return run::finish(id, argv[3]);
        }
    return 2;
}
