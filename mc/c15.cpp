// C15: assembling is a pure function, whatever ran before or runs alongside.
#include "check.hpp"
#include "sched.hpp"
#include <algorithm>
#include <map>
#include <cstring>
#include <ctime>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" [[noreturn]] void __real__exit(int);

namespace check {
namespace {
// Texts that between them use every part of the assembler.
const std::vector<std::string>& texts()
{
    static const std::vector<std::string> t = {
        "",
        "NOP;",
        "MOV R1, R2;MOV R3, c[0x1][0x20];",
        "A:\nBRA A;\nB:\nBRA C;\nC:\nEXIT;",
        "BRA A;NOP;NOP;NOP;A:\nNOP;",
        "@!P2 FADD.FTZ.RM R1, -|R2|, R3.reuse @WAIT 11 @WB 2 @RB 1 @DEP 3 @Y;",
        ".dksh compute\nmain:\nNOP;",
        ".dksh compute\n.num_gprs 40\n.workgroup_size 8 4 2\n.shared_memory 0x300\n.local_memory 0x20\nNOP;NOP;NOP;\nmain:\nMOV R1, 0x7;",
        ".num_gprs 17\nNOP;NOP;",
        "IADD.X R1.CC, R2, -R3;IADD.SAT R1, R2, 0x7f;",
        "FADD R1, R2, 1.5;FADD32I R3, R4, -0.25;",
        "HADD2 R1, R2, 1, -2;DADD R0, R2, 1.0;",
        "ISETP.GT.U32.AND P1, PT, R4, c[0x0][0x4], !P2;",
        "VMAD.U8.S16.SAT R1, R2.B1, R3.H0, R4;",
        "TEX.LL.LC P3, R0, R2, R4, 0xf3, 2D, 0xe;",
        "LDG.E.64 R2, [R4+0x10];STG.E.128 [R4-0x10], R8;",
        "XMAD.PSL.CBCC R1, R2.H1, R3, R4;",
        "SUST.D.BA.2D.64 [R2], R4, R8;",
        "ATOM.ADD.U64 R2, [R4], R6;",
        "FADD R1, R2, 0.000000000000000000000000000000000000000000000000001;FADD32I R3, R4, 1000000000000000000000000000000000000000000000.0;", // out of the range of binary32
        "S2R R1, SR_TID.X;LOP3.LUT R1, R2, R3, R4, 0xfe;",
    };
    return t;
}

std::vector<std::string> legal;                 // those of a list that assemble, ...
std::vector<std::vector<uint64_t>> solo;        // ... and what they assemble to in a process that did nothing else

// Runs fn in a fresh process.
bool in_child(const std::function<bool()>& fn, std::string& how)
{
    pid_t p = fork();
    if (!p) {
        alarm(60);
        __real__exit(fn() ? 0 : 1);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return true;
    how = WIFSIGNALED(st) ? std::string("the process is killed by signal ") + strsignal(WTERMSIG(st)) : "status " + std::to_string(WEXITSTATUS(st));
    return false;
}

// Solo results, each from a process of its own.
void prepare(const std::vector<std::string>& list)
{
    struct Buf { uint32_t ok, n; uint64_t w[1 << 14]; };
    Buf* b = static_cast<Buf*>(mmap(nullptr, sizeof(Buf), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    legal.clear();
    solo.clear();
    for (auto& t : list) {
        b->ok = 0;
        std::string how;
        in_child([&] {
            const impl::Result& r = impl::assemble(t);
            b->n = uint32_t(std::min<size_t>(r.words.size(), 1 << 14));
            std::copy(r.words.begin(), r.words.begin() + b->n, b->w);
            b->ok = r.ok();
            return true;
        }, how);
        if (!b->ok) continue; // an illegal text ends the process: nothing comes after it
        legal.push_back(t);
        solo.emplace_back(b->w, b->w + b->n);
    }
    munmap(b, sizeof(Buf));
}

std::string join(const std::vector<int>& h)
{
    std::string s;
    for (size_t i = 0; i < h.size(); ++i) s += "call " + std::to_string(i + 1) + ": " + legal[h[i]] + "\n";
    return s;
}

bool history(const std::vector<int>& h, bool report)
{
    for (size_t i = 0; i < h.size(); ++i) {
        const impl::Result& r = run::assemble(legal[h[i]], i % 2 ? "another/name.txt" : "f");
        if (r.ok() && r.words == solo[h[i]]) continue;
        if (report) run::violation("history", join(h), "call " + std::to_string(i + 1) + " alone gives " + hex(solo[h[i]]) + "; after the others: " + impl::describe(r));
        return false;
    }
    return true;
}

void histories()
{
    prepare(texts());
    const int k = int(legal.size());
    const int depth = run::thorough ? 5 : 4;
    run::all("histories of up to " + std::to_string(depth) + " calls in fresh processes", size_t(k * k), [&](size_t item) {
        size_t rest = 1;
        for (int i = 2; i < depth; ++i) rest *= size_t(k);
        for (size_t x = 0; x < rest && !run::stop(); ++x) {
            std::vector<int> h = {int(item) % k, int(item) / k};
            size_t y = x;
            for (int i = 2; i < depth; ++i) h.push_back(int(y % size_t(k))), y /= size_t(k);
            std::string how;
            run::states(h.size());
            run::transitions(h.size());
            run::traces();
            run::alive();
            if (!in_child([&] { return history(h, true); }, how) && how != "status 1")
                run::violation("history", join(h), how);
            if (x == 7 && item % 90 == 1) run::sample(join(h));
        }
    }, "crash", true);
    // long histories in one process: every ordered pair of texts of all forms, in a row
    std::vector<std::string> all = texts();
    for (auto& f : model::forms()) {
        all.push_back(gen::simplest(f.index));
        all.push_back(gen::rich(f.index));
    }
    prepare(all);
    const int n = int(legal.size());
    run::all("every text followed by every text, " + std::to_string(2 * n) + " calls per process", size_t(n), [&](size_t a) {
        // the whole item is one history, in a process of its own
        std::string how;
        run::states(uint64_t(2 * n));
        run::transitions(uint64_t(2 * n));
        run::traces(uint64_t(2 * n));
        run::alive();
        bool good = in_child([&] {
            for (int b = 0; b < n; ++b) {
                const impl::Result& r = run::assemble(legal[a], "x");
                if (!r.ok() || r.words != solo[a]) {
                    run::violation("history", "after " + std::to_string(2 * b) + " calls (this text alternating with the others):\n" + legal[a], "alone: " + hex(solo[a]) + "; now: " + impl::describe(r));
                    return false;
                }
                const impl::Result& s = run::assemble(legal[b]);
                if (!s.ok() || s.words != solo[b]) {
                    run::violation("history", "call 1: " + legal[a] + "\ncall 2: " + legal[b], "alone: " + hex(solo[b]) + "; now: " + impl::describe(s));
                    return false;
                }
            }
            return true;
        }, how);
        if (!good && how != "status 1") run::violation("history", legal[a], how);
    }, "crash", true);
    // long texts of the same length that differ in one or two places; texts of different lengths
    std::vector<std::string> alike;
    const std::vector<size_t> lengths = {1, 2, 10, 40, 100, 400, 1500, 8000};
    std::vector<std::pair<size_t, size_t>> group;
    for (size_t n : lengths) {
        auto make = [&](size_t at, const char* other, size_t at2 = size_t(-1), const char* other2 = "") {
            std::string t;
            for (size_t i = 0; i < n; ++i) t += i == at ? other : i == at2 ? other2 : "MOV R1, R2;\n";
            if (std::find(alike.begin(), alike.end(), t) == alike.end()) alike.push_back(t);
        };
        const size_t from = alike.size();
        make(n, "");
        for (size_t at : {size_t(0), n / 4, n / 2, n - n / 4 - 1, n - 1})
            for (const char* o : {"MOV R2, R1;\n", "MOV R1, R3;\n", "MOV R3, R1;\n", "FLO R1, R2;\n", "l: BRA  l;\n", "MOV R1\t,R2;\n"}) make(at, o);
        make(0, "MOV R1, R3;\n", n - 1, "MOV R1, R4;\n");
        make(0, "MOV R1, R4;\n", n - 1, "MOV R1, R3;\n");
        make(n / 2, "MOV R1, R3;\n", n - 1, "MOV R1, R4;\n");
        make(n / 2, "MOV R1, R4;\n", n - 1, "MOV R1, R3;\n");
        group.push_back({from, alike.size()});
    }
    prepare(alike);
    if (legal.size() == alike.size()) // otherwise: another property's business
        run::all("pairs of similar long texts in fresh processes", legal.size(), [&](size_t a) {
            for (auto [from, to] : group)
                for (size_t b = from; b < to && !run::stop(); ++b) {
                    // those of the same length, and the first of every other length
                    if ((a < from || a >= to) && b != from) continue;
                    std::vector<int> h = {int(a), int(b), int(a)};
                    std::string how;
                    run::states(3);
                    run::transitions(3);
                    run::traces();
                    run::alive();
                    if (!in_child([&] { return history(h, true); }, how) && how != "status 1") run::violation("history", join(h), how);
                }
        }, "crash", true);
    run::bound("histories of 3 calls over all pairs of " + std::to_string(alike.size()) + " texts of 1 to 8000 instructions that have the same length and differ in one or two instructions, or have different lengths");
    // programs with the same label names at different addresses, any number of them
    std::vector<std::string> labelled;
    const int most_labels = run::thorough ? 40 : 20;
    for (int n = 1; n <= most_labels; ++n)
        for (int variant = 0; variant < 4; ++variant) {
            std::string t = variant == 2 ? ".dksh compute\nmain:\n" : "";
            for (int i = 0; i < (variant == 1 ? 4 : variant == 2 ? 3 : 0); ++i) t += "NOP;";
            for (int i = 0; i < n; ++i) {
                int name = variant == 3 ? n - 1 - i : i;
                t += "\nL" + std::to_string(name) + ": BRA L" + std::to_string(n - 1 - name) + ";NOP;";
            }
            labelled.push_back(t);
        }
    prepare(labelled);
    run::all("pairs of programs with the same labels in fresh processes", legal.size(), [&](size_t a) {
        for (size_t b = 0; b < legal.size() && !run::stop(); ++b) {
            std::vector<int> h = {int(a), int(b), int(a)};
            std::string how;
            run::states(3);
            run::transitions(3);
            run::traces();
            run::alive();
            if (!in_child([&] { return history(h, true); }, how) && how != "status 1") run::violation("history", join(h), how);
        }
    }, "crash", true);
    run::bound("histories of 3 calls over all pairs of " + std::to_string(labelled.size()) + " programs with 1 to " + std::to_string(most_labels) + " labels of the same names at different addresses");
    // every text of the instruction space, each followed by calls that show what it left behind
    prepare({"NOP;", "@P3 FFMA.FTZ R1, R2.reuse, R3, -R4;", "A: BRA A;B: BRA B;IADD R1, R2, 0x5 @WAIT 3 @RB 2;", ".dksh compute\nmain:\nEXIT;"});
    struct Left { uint32_t len; char text[1 << 12]; };
    auto after_each = [&](const std::vector<std::string>& list) {
        Left* const left = static_cast<Left*>(mmap(nullptr, sizeof(Left), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        for (size_t b = 0; b < list.size() && !run::stop(); b += 20000) {
            const size_t e = std::min(list.size(), b + 20000);
            std::string how;
            run::states(e - b);
            run::transitions((e - b) * 3);
            run::traces(e - b);
            run::alive();
            left->len = 0;
            const bool good = in_child([&] {
                for (size_t i = b; i < e; ++i) {
                    const model::Program m = model::assemble(list[i]);
                    if (!m.ok) continue;
                    const impl::Result& r = run::assemble(list[i]);
                    if (!r.ok() || r.words != m.words) { // the text itself may be at fault
                        left->len = uint32_t(std::min(list[i].size(), sizeof left->text));
                        std::memcpy(left->text, list[i].data(), left->len);
                        return false;
                    }
                    for (size_t k : {i % legal.size(), (i + 1 + i / legal.size()) % legal.size()}) {
                        const impl::Result& s = run::assemble(legal[k]);
                        if (s.ok() && s.words == solo[k]) continue;
                        run::violation("history", "call 1: " + list[i] + "\ncall 2: " + legal[k], "alone the second gives " + hex(solo[k]) + "; after the first (and others before): " + impl::describe(s));
                        return false;
                    }
                }
                return true;
            }, how);
            if (good) continue;
            if (how != "status 1") run::violation("history", "a long history that includes\n" + list[b], how);
            if (!left->len) continue;
            const std::string text(left->text, left->len);
            std::string other;
            if (in_child([&] {
                    const model::Program m = model::assemble(text);
                    const impl::Result& r = impl::assemble(text);
                    return r.ok() && r.words == m.words;
                }, other))
                run::violation("history", text, "gives other words after others have been assembled (" + std::to_string(e - b) + " texts from: " + list[b] + ")");
        }
        munmap(left, sizeof(Left));
    };
    {
        struct Item { int form, first; };
        std::vector<Item> items;
        for (auto& f : model::forms())
            for (size_t i = 0; i < f.ops.size(); ++i)
                if (gen::choices()[f.index][i].alt.size() > 1) items.push_back({f.index, int(i)});
        run::all("what every instruction leaves behind", items.size(), [&](size_t k) {
            std::vector<std::string> list;
            gen::deviations(items[k].form, run::thorough ? 3 : 2, 1, items[k].first, [&](auto& pick) { list.push_back(gen::text(items[k].form, pick)); });
            after_each(list);
        }, "crash", true);
        run::all("what every annotation leaves behind", 3 * 2 * 7 * 7, [&](size_t k) {
            static const int stalls[] = {-1, 0, 15};
            const int stall = stalls[k % 3], wb = int(k / 6 % 7) - 1, rb = int(k / 42) - 1;
            std::vector<std::string> list;
            for (int deps = 0; deps < 64; ++deps)
                for (const char* insn : {"NOP", "@!P5 IADD R1, R2.reuse, R3", "MOV R1, R2.reuse"}) {
                    std::string t = insn;
                    if (stall >= 0) t += " @WAIT " + std::to_string(stall);
                    if (wb >= 0) t += " @WB " + std::to_string(wb);
                    if (rb >= 0) t += " @RB " + std::to_string(rb);
                    for (int d = 0; d < 6; ++d)
                        if (deps >> d & 1) t += " @DEP " + std::to_string(d);
                    list.push_back(t + (k / 3 % 2 ? " @Y;" : ";"));
                }
            after_each(list);
        }, "crash", true);
        run::all("what every directive leaves behind", 9, [&](size_t k) {
            static const char* const place[] = {".num_gprs #", ".shared_memory #", ".local_memory #", ".workgroup_size # 1 1", ".workgroup_size 1 # 1", ".workgroup_size 1 1 #", "BRA #", "MOV32I R1, #", "IADD R1, R2, #"};
            std::vector<std::string> list;
            auto one = [&](int64_t x) {
                std::string d = place[k];
                d.replace(d.find('#'), 1, std::to_string(x));
                if (k >= 6) {
                    list.push_back(d + ";");
                    return;
                }
                list.push_back(d + "\nNOP;");
                list.push_back(".dksh compute\n" + d + "\nmain:\nMOV R1, R2;");
            };
            for (int64_t x = -300; x <= 1100; ++x) one(x);
            for (int b = 10; b < 34; ++b)
                for (int d = -2; d <= 2; ++d) one((1LL << b) + d), one(-(1LL << b) + d);
            after_each(list);
        }, "crash", true);
        run::bound("every text of every form up to 2 (3) choices away from the default, every annotation and directive value, each followed by calls whose results are known, 20000 in one process");
    }
    const uint64_t many = run::thorough ? 5000000 : 400000;
    run::all("one text many times", texts().size(), [&](size_t k) {
        prepare({texts()[k]});
        if (legal.empty()) return;
        std::string how;
        run::states(many);
        run::transitions(many);
        run::traces(many);
        bool good = in_child([&] {
            alarm(600);
            for (uint64_t i = 0; i < many; ++i) {
                const impl::Result& r = run::assemble(legal[0]);
                if (!r.ok() || r.words != solo[0]) {
                    run::violation("history", legal[0], "call " + std::to_string(i + 1) + " of the same text: " + impl::describe(r) + "; the first gave " + hex(solo[0]));
                    return false;
                }
            }
            return true;
        }, how);
        if (!good && how != "status 1") run::violation("history", legal[0], how);
    }, "crash", true);
    run::bound("all histories of " + std::to_string(depth) + " calls over " + std::to_string(k) + " texts, each from a fresh process; all ordered pairs of " + std::to_string(n) + " texts (simplest and richest of every form) in long-running processes; " + std::to_string(many) + " calls of one text");
}

// ------------------------------------------------------------------------------------------------ threads

bool good(const std::vector<int>& who, const sched::Run& r, const sched::Script& s, bool report)
{
    std::string why;
    if (r.died) why = r.how;
    else
        for (size_t i = 0; i < who.size() && why.empty(); ++i) {
            if (!r.error[i].empty()) why = "thread " + std::to_string(i) + ": " + r.error[i];
            else if (r.words[i] != solo[who[i]]) why = "thread " + std::to_string(i) + " gets " + hex(r.words[i]) + ", alone " + hex(solo[who[i]]);
        }
    if (why.empty()) return true;
    if (report) {
        std::string t;
        for (size_t i = 0; i < who.size(); ++i) t += "thread " + std::to_string(i) + ": " + legal[who[i]] + "\n";
        t += "thread " + std::to_string(s.first) + " starts; switches before points";
        for (uint64_t p : s.switch_at) t += " " + std::to_string(p);
        run::violation("interleaving", t, why);
    }
    return false;
}

sched::Run execute(const std::vector<int>& who, const sched::Script& s, bool& ok)
{
    std::vector<std::string> t;
    for (int w : who) t.push_back(legal[w]);
    sched::Run r = sched::execute(t, s);
    run::alive();
    run::states();
    run::traces();
    run::transitions(r.points + 1);
    run::count(0);
    if (r.helped) run::count(3);
    ok = good(who, r, s, false);
    if (!ok) { // a wrong schedule goes wrong again
        sched::Run again = sched::execute(t, s);
        good(who, again, s, true);
    }
    return r;
}

double now()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return double(t.tv_sec) + double(t.tv_nsec) * 1e-9;
}

// All schedules with switches where the threads race or synchronise, up to a number of preemptions; the set of those
// places grows with what the schedules show.
void explore_conflicts(const std::vector<int>& who, bool warm, int preemptions, double deadline)
{
    std::set<uint64_t> cells;
    std::vector<std::string> before;
    if (warm)
        for (int w : who) before.push_back(legal[w]);
    bool ok;
    for (int first = 0; first < int(who.size()); ++first) {
        sched::Script s;
        s.first = first;
        s.record = true;
        s.before = before;
        sched::Run r = execute(who, s, ok);
        if (!ok) return;
        cells.insert(r.conflicts.begin(), r.conflicts.end());
    }
    if (cells.empty()) {
        run::count(1);
        return; // the threads do not meet anywhere: all interleavings are equivalent
    }
    run::count(2);
    for (int round = 0; round < 4; ++round) {
        size_t known = cells.size();
        for (int first = 0; first < int(who.size()); ++first) {
            sched::Script s;
            s.first = first;
            s.points = sched::Conflicts;
            s.cells.assign(cells.begin(), cells.end());
            s.record = true;
            s.before = before;
            std::function<void(uint64_t, int)> go = [&](uint64_t from, int left) {
                if (run::stop()) return;
                if (now() > deadline) {
                    run::count(6);
                    return;
                }
                sched::Run r = execute(who, s, ok);
                if (!ok) return;
                cells.insert(r.conflicts.begin(), r.conflicts.end());
                if (!left) return;
                for (uint64_t p = from; p < r.points && !run::stop(); ++p) {
                    s.switch_at.push_back(p);
                    go(p + 1, left - 1);
                    s.switch_at.pop_back();
                }
            };
            go(0, preemptions);
        }
        if (cells.size() == known || run::stop()) break;
    }
}

void threads()
{
    // 1. Which memory do calls share at all?
    std::vector<std::string> all = texts();
    for (auto& f : model::forms()) {
        all.push_back(gen::simplest(f.index));
        all.push_back(gen::rich(f.index));
    }
    prepare(texts());
    const int base = int(legal.size());
    prepare(all);
    const size_t n = legal.size();
    // per text: writes to memory that is not its own?
    auto* writes = static_cast<uint8_t*>(mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    run::all("memory used by one call", n, [&](size_t k) {
        sched::Script s;
        s.record = true;
        bool ok;
        sched::Run r = execute({int(k)}, s, ok);
        writes[k] = !r.shared_written.empty() || r.overflow;
        run::count(4, r.accesses);
        run::count(5, r.shared_used.size());
        if (k < 3) run::sample(legal[k] + ": " + std::to_string(r.accesses) + " accesses outside the stack, " + std::to_string(r.shared_used.size()) + " cells not allocated by the call, " + std::to_string(r.shared_written.size()) + " of them written");
    }, "crash", true);
    std::vector<int> writers;
    for (size_t i = 0; i < n; ++i)
        if (writes[i]) writers.push_back(int(i));
    // 2. Pairs. Calls that write no memory but their own cannot influence another thread in any interleaving; the pairs
    // of the basic texts, and those of the calls that do write, are explored.
    std::vector<std::vector<int>> pairs;
    for (int a = 0; a < base; ++a)
        for (int b = 0; b < base; ++b) pairs.push_back({a, b});
    for (size_t i = 0; i < writers.size(); i += std::max<size_t>(1, writers.size() / 24))
        for (size_t j = 0; j < writers.size(); j += std::max<size_t>(1, writers.size() / 24)) pairs.push_back({writers[i], writers[j]});
    const int most = run::thorough ? 4 : 3;
    for (int preemptions = 1; preemptions <= most; ++preemptions) {
        if (preemptions > 1 && !run::counter(2)) break; // nothing to explore further
        const double deadline = now() + (run::thorough ? 1200 : 50);
        run::all("pairs of calls, all interleavings of conflicting accesses with " + std::to_string(preemptions) + " preemptions", 2 * pairs.size(),
                 [&](size_t k) { explore_conflicts(pairs[k / 2], k % 2, preemptions, deadline); }, "crash", true);
    }
    // 3. One switch anywhere, whatever the accesses: finds what hides in functions that are not instrumented.
    const double deadline = now() + (run::thorough ? 3600 : 240);
    auto one_switch = [&](const std::vector<int>& who, sched::Points points) {
        sched::Script s;
        s.points = points;
        bool ok;
        uint64_t total = execute(who, s, ok).points;
        // code that does much more than now is covered on a grid
        const uint64_t most = run::thorough ? 100000 : points == sched::Functions ? 3000 : 20000;
        const uint64_t step = std::max<uint64_t>(1, total / most);
        if (step > 1) run::count(7);
        for (uint64_t p = 0; ok && p < total && !run::stop(); p += step) {
            if (now() > deadline) {
                run::count(6);
                return;
            }
            s.switch_at = {p};
            execute(who, s, ok);
        }
    };
    run::all("pairs of calls, one switch at every function entry", size_t(base * base), [&](size_t k) {
        one_switch({int(k) % base, int(k) / base}, sched::Functions);
    }, "crash", true);
    std::vector<std::vector<int>> fine;
    for (int a = 0; a < base; ++a)
        for (int b = 0; b < base; ++b)
            if (run::thorough || b == (a + 1) % base) fine.push_back({a, b});
    run::all("pairs of calls, one switch at every memory access", fine.size(), [&](size_t k) { one_switch(fine[k], sched::Accesses); }, "crash", true);
    if (run::counter(6)) run::note("explorations ended by their time limit", std::to_string(run::counter(6)));
    if (run::counter(7)) run::note("pairs whose switches were explored on a grid", std::to_string(run::counter(7)));
    run::note("schedules", std::to_string(run::counter(0)));
    run::note("explorations without any conflicting access", std::to_string(run::counter(1)));
    run::note("explorations with conflicting accesses", std::to_string(run::counter(2)));
    run::note("schedules with a thread blocked outside the scheduler's control", std::to_string(run::counter(3)));
    run::note("memory accesses recorded", std::to_string(run::counter(4)));
    run::note("calls that write memory they did not allocate", std::to_string(writers.size()) + " of " + std::to_string(n));
    run::bound("threads: for each of " + std::to_string(n) + " texts all memory accesses are recorded; two calls that write only memory of their own are independent in every interleaving, of any number of threads. All " + std::to_string(pairs.size()) + " pairs of basic texts (and of calls that write shared memory), in a fresh process and after both texts were assembled once: all interleavings of racing accesses and synchronisation with up to " + std::to_string(most) + " preemptions; one switch at every function entry; one switch at every memory access for " + std::to_string(fine.size()) + " pairs");
    munmap(writes, n);
}
} // namespace

void c15()
{
    run::judge = [](unsigned, std::string_view, const char*) { return true; };
    if (sched::available()) threads();
    else histories();
}

} // namespace check
