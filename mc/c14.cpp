// C14: the command line tool reports success only for a complete output.
// Depth-first over all choices of faults at the tool's file operations, with at most `bound` faults per run.
#include "check.hpp"
#include "cli.hpp"
#include <algorithm>
#include <sys/stat.h>

namespace check {
namespace {
struct Scenario {
    std::string what, text;
    int input = 0;  // 0 file, 1 missing, 2 directory
    int output = 0; // 0 missing, 1 longer file, 2 shorter file, 3 directory, 4 in a missing directory, 5 /dev/full
    int bound = 2;
};

std::string out_path(const Scenario& s) { return s.output == 3 ? "d" : s.output == 4 ? "no/out" : s.output == 5 ? "/dev/full" : "out"; }
std::string in_path(const Scenario& s) { return s.input == 1 ? "none" : s.input == 2 ? "d" : "in"; }

void prepare(const Scenario& s)
{
    static const std::string junk(300000, 'J');
    cli::remove_scratch();
    cli::write_file("in", s.text);
    std::string d = cli::scratch() + "/d";
    if (mkdir(d.c_str(), 0700)) {}
    if (s.output == 1) cli::write_file("out", junk);
    if (s.output == 2) cli::write_file("out", "ab");
}

std::string describe(const Scenario& s, const std::vector<cli::Step>& steps)
{
    std::string d = s.what + "; nxas " + in_path(s) + " -o " + out_path(s) + ";";
    for (size_t i = 0; i < steps.size() && i < 400; ++i)
        if (steps[i].taken != cli::None) d += " #" + std::to_string(i) + " " + steps[i].call + ": " + cli::name(steps[i].taken) + ";";
    return d;
}

// Runs one script and judges it.
bool judge_run(const Scenario& s, const std::vector<cli::Fault>& script, std::vector<cli::Step>& steps, const std::string& want, bool legal)
{
    prepare(s);
    auto before = cli::snapshot();
    run::alive();
    cli::Outcome o = cli::run_faulty({in_path(s), "-o", out_path(s)}, script, in_path(s), steps);
    run::states();
    run::traces();
    run::transitions(steps.size());
    std::string why;
    if (o.exited && (o.status == 120 || o.status == 121 || o.status == 122)) {
        std::fprintf(stderr, "cannot run the tool: %s\n", o.describe().c_str());
        std::abort();
    }
    bool in_fault = s.input != 0, out_fault = false;
    for (auto& st : steps)
        if (st.taken != cli::None) (st.output ? out_fault : in_fault) = true;
    auto after = cli::snapshot();
    if (o.hang) {
        why = "the tool does not terminate";
    } else if (!o.exited) {
        why = "the tool ends abnormally: " + o.describe();
    } else if (o.status == 0) {
        auto it = after.find("out");
        if (!legal) why = "exit status 0 although the input is illegal";
        else if (s.input) why = "exit status 0 although the input cannot be read";
        else if (s.output >= 3 && !(s.output == 5 && want.empty())) why = "exit status 0 although the output cannot be written";
        else if (s.output < 3 && (it == after.end() || it->second != want))
            why = "exit status 0, but the output holds " + (it == after.end() ? std::string("nothing") : std::to_string(it->second.size()) + " bytes" + (it->second.size() == want.size() ? " that differ" : "")) + " instead of the " + std::to_string(want.size()) + " bytes of the assembled input";
    } else if (o.status != 1 || !impl::says_something(o.err)) {
        why = "the tool fails with " + o.describe();
    } else if (!out_fault && (in_fault || !legal) && after != before) {
        why = "the input is not read or illegal, but files were created or changed: " + o.describe();
    }
    if (why.empty()) return true;
    run::violation("incomplete output", describe(s, steps), why);
    return false;
}

void explore(const Scenario& s, std::vector<cli::Fault> script, size_t from, int left, const std::string& want, bool legal)
{
    if (run::stop()) return;
    std::vector<cli::Step> steps;
    if (!judge_run(s, script, steps, want, legal)) return;
    if (!left) return;
    for (size_t i = from; i < steps.size(); ++i)
        for (cli::Fault f : steps[i].possible) {
            std::vector<cli::Fault> next = script;
            next.resize(i, cli::None);
            next.push_back(f);
            explore(s, next, i + 1, left - 1, want, legal);
        }
}
} // namespace

void c14()
{
    std::string small = "MOV R1, R2;\n", mid, big, dksh = ".dksh compute\nmain:\n";
    for (int i = 0; i < 500; ++i) mid += "IADD R" + std::to_string(i % 250) + ", R" + std::to_string(i % 7) + ", R3;\n";
    for (int i = 0; i < 5000; ++i) big += "IADD R" + std::to_string(i % 250) + ", R" + std::to_string(i % 7) + ", R3;\n";
    for (int i = 0; i < 400; ++i) dksh += "MOV R" + std::to_string(i % 200) + ", 0x" + std::to_string(i) + ";\n";
    const int b = run::thorough ? 4 : 3;
    std::vector<Scenario> sc = {
        {"one instruction, no output yet", small, 0, 0, b},
        {"one instruction, longer output exists", small, 0, 1, b},
        {"500 instructions, shorter output exists", mid, 0, 2, b - 1},
        {"500 instructions, longer output exists", mid, 0, 1, b - 1},
        {"5000 instructions", big, 0, 0, run::thorough ? 3 : 2},
        {"container of 400 instructions", dksh, 0, 2, b - 1},
        {"empty input", "", 0, 1, b},
        {"legal text, NUL, more text", small + std::string("\0 garbage", 9), 0, 1, b},
        {"illegal text", small + "NOPE;\n", 0, 1, b},
        {"illegal text at the end of 500 instructions", mid + "IADD R1", 0, 0, b - 1},
        {"missing input", small, 1, 1, b},
        {"input is a directory", small, 2, 1, b},
        {"output is a directory", small, 0, 3, b},
        {"output in a missing directory", small, 0, 4, b},
        {"output is a full device", small, 0, 5, b},
        {"output is a full device", mid, 0, 5, 1},
        {"output is a full device", dksh, 0, 5, 1},
    };
    // The first fault of every run makes the items.
    struct Item { size_t scenario; std::vector<cli::Fault> script; };
    std::vector<Item> items;
    std::vector<std::string> want(sc.size());
    std::vector<char> legal(sc.size());
    for (size_t i = 0; i < sc.size(); ++i) {
        bool ok = false;
        want[i] = cli::expected(sc[i].text, ok);
        legal[i] = ok;
        std::vector<cli::Step> steps;
        if (!judge_run(sc[i], {}, steps, want[i], ok)) continue;
        std::string trace;
        for (auto& s : steps) trace += s.call + ", ";
        run::sample(sc[i].what + ": " + trace);
        for (size_t k = 0; k < steps.size(); ++k)
            for (cli::Fault f : steps[k].possible) {
                std::vector<cli::Fault> script(k, cli::None);
                script.push_back(f);
                items.push_back({i, script});
            }
    }
    cli::remove_scratch();
    run::all("fault scripts", items.size(), [&](size_t k) {
        const Item& it = items[k];
        explore(sc[it.scenario], it.script, it.script.size(), sc[it.scenario].bound - 1, want[it.scenario], legal[it.scenario]);
        cli::remove_scratch();
    }, "crash", true);
    // sizes of the input and of the output, without faults
    std::vector<size_t> sizes;
    for (size_t n = 0; n < (run::thorough ? 600u : 130u); ++n) sizes.push_back(n);
    for (size_t m = 512; m <= (run::thorough ? 1u << 24 : 1u << 22); m *= 2)
        for (int d = -1; d <= 1; ++d) sizes.push_back(m + size_t(d));
    for (size_t m = 1; m <= (run::thorough ? 64u : 20u); ++m)
        for (size_t unit : {size_t(1000), size_t(1023), size_t(1024), size_t(4096), size_t(8191), size_t(8192)})
            for (int d = -1; d <= 1; ++d) sizes.push_back(m * unit + size_t(d));
    std::sort(sizes.begin(), sizes.end());
    sizes.erase(std::unique(sizes.begin(), sizes.end()), sizes.end());
    run::all("sizes", sizes.size() * 4, [&](size_t k) {
        const size_t n = sizes[k / 4];
        std::string t;
        switch (k % 4) {
        case 0: // white space in front: the end of the text matters
            if (n < 12) return;
            t = std::string(n - 12, '\n') + "MOV R1, R2;\n";
            break;
        case 1: // white space behind
            if (n < 12) return;
            t = "MOV R1, R2;\n" + std::string(n - 12, ' ');
            break;
        case 2: // many instructions
            if (n > 200000) return;
            for (size_t i = 0; t.size() + 16 < n; ++i) t += "IADD R" + std::to_string(i % 250) + ",R" + std::to_string(i % 7) + ",R3;";
            while (t.size() < n) t += '\n';
            break;
        default: // as many words of output
            if (n > 30000) return;
            for (size_t i = 0; i < n; ++i) t += i % 2 ? "NOP;" : "EXIT;";
            break;
        }
        bool ok = false;
        const std::string want = cli::expected(t, ok);
        std::vector<cli::Step> steps;
        judge_run({"input of " + std::to_string(t.size()) + " bytes, output of " + std::to_string(want.size()) + " (kind " + std::to_string(k % 4) + ")", t, 0, int(k / 4 % 3)}, {}, steps, want, ok);
        cli::remove_scratch();
    }, "crash", true);
    run::bound(std::to_string(sizes.size()) + " sizes of the input (up to " + std::string(run::thorough ? "16" : "4") + " MB) and of the output, around all powers of two and multiples of usual buffer sizes, without faults");
    run::bound("17 scenarios (input and output states, sizes); all sequences of at most " + std::to_string(b) + " faults (one less for the large inputs) at every open, read, write, close and other call on the input or output: errors EIO, EINTR, EACCES, EMFILE, ENOSPC, ENOENT, EISDIR, EAGAIN, short transfers of 1 byte and half, data lost at close, errors that persist");
}

} // namespace check
