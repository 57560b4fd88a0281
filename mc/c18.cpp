// C18: the command line accepts exactly one input and one output.
#include "check.hpp"
#include "cli.hpp"
#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <map>
#include <sys/stat.h>
#include <unistd.h>

namespace check {
namespace {
using Files = std::map<std::string, std::string>;
const Files& initial()
{
    static const Files f = {
        {"in", "MOV R1, R2;\nL:\nBRA L;\n"},
        {"in2", "NOP;FADD R1, R2, 1.5;"},
        {"bad", "NOP;\nMOV R1;\n"},
        {"out", std::string(1000, 'x')},
        {"d/", ""},
    };
    return f;
}

Files now; // what is in the scratch directory

void clean()
{
    now.clear();
    cli::remove_scratch();
}

void reset(const Files& extra)
{
    Files want = initial();
    want.insert(extra.begin(), extra.end());
    if (now == want) return;
    cli::remove_scratch();
    for (auto& [n, c] : want)
        if (n.back() == '/') mkdir((cli::scratch() + "/" + n).c_str(), 0700);
        else cli::write_file(n, c);
}

std::string show(const std::vector<std::string>& args)
{
    std::string s = "nxas";
    for (auto& a : args) s += a.empty() ? " ''" : " " + (a.size() > 60 ? a.substr(0, 60) + "..." : a);
    return s;
}

// The name of a path in the scratch directory: without "." and "..".
std::string plain_name(std::string p)
{
    for (const char* s : {"/./", "//"})
        while (p.find(s) != std::string::npos) p.replace(p.find(s), std::strlen(s), "/");
    while (!p.compare(0, 2, "./")) p.erase(0, 2);
    while (!p.compare(0, 5, "d/../")) p.erase(0, 5);
    return p;
}

// What has to happen.
bool contract(const std::vector<std::string>& given, const Files& before, Files& after)
{
    after = before;
    std::vector<std::string> args;
    for (auto& a : given) args.push_back(a == "-o" ? a : plain_name(a));
    const std::string *in = nullptr, *out = nullptr;
    for (size_t i = 0; i < args.size(); ++i) {
        if (args[i] == "-o") {
            if (out || i + 1 == args.size()) return false;
            out = &args[++i];
        } else {
            if (in) return false;
            in = &args[i];
        }
    }
    if (!in || !out) return false;
    auto f = before.find(*in);
    if (f == before.end() || f->first.back() == '/') return false;
    static std::map<std::string, std::pair<bool, std::string>> memo;
    auto m = memo.find(f->second);
    if (m == memo.end()) {
        bool ok;
        std::string b = cli::expected(f->second, ok);
        m = memo.emplace(f->second, std::pair(ok, b)).first;
        if (memo.size() > 5000) memo.clear(), m = memo.emplace(f->second, std::pair(ok, b)).first;
    }
    if (!m->second.first) return false;
    if (out->size() > 255) return false;
    if (out->empty() || before.count(*out + "/") || out->back() == '/') return false;
    size_t slash = out->rfind('/');
    if (slash != std::string::npos && !before.count(out->substr(0, slash + 1))) return false;
    after[*out] = m->second.second;
    return true;
}

bool one(const std::vector<std::string>& args, const Files& extra = {})
{
    run::mark(show(args));
    reset(extra);
    Files before = initial(), want;
    before.insert(extra.begin(), extra.end());
    bool good = contract(args, before, want);
    cli::Outcome o = cli::run(args);
    if (o.exited && (o.status == 120 || o.status == 121)) {
        std::fprintf(stderr, "cannot run the tool\n");
        std::abort();
    }
    now = cli::snapshot();
    run::states();
    run::transitions(args.size());
    run::traces();
    std::string why;
    if (good) {
        if (o.hang || !o.exited || o.status != 0) why = "expected success; got " + o.describe();
    } else {
        if (o.hang || !o.exited || o.status != 1 || !impl::says_something(o.err)) why = "expected exit status 1 and a message; got " + o.describe();
    }
    if (why.empty() && now != want) {
        why = good ? "exit status 0, but wrong files:" : "exit status 1, but files were created or changed:";
        for (auto& [n, c] : now)
            if (!want.count(n) || want.at(n) != c) why += " " + n + " (" + std::to_string(c.size()) + " bytes)";
        for (auto& [n, c] : want)
            if (!now.count(n)) why += " " + n + " missing";
    }
    if (why.empty()) return true;
    run::violation("command line", show(args) + (extra.empty() ? "" : " # " + extra.begin()->second.substr(0, 300)), why);
    return false;
}

void lists(const std::vector<std::string>& sym, int n)
{
    size_t total = 1;
    for (int i = 0; i < n; ++i) total *= sym.size();
    const size_t chunk = 64;
    run::all("lists of " + std::to_string(n) + " of " + std::to_string(sym.size()) + " arguments", (total + chunk - 1) / chunk, [&](size_t item) {
        for (size_t x = item * chunk; x < std::min(total, (item + 1) * chunk) && !run::stop(); ++x) {
            std::vector<std::string> a;
            size_t y = x;
            for (int i = 0; i < n; ++i) a.push_back(sym[y % sym.size()]), y /= sym.size();
            one(a);
            if (x % 997 == 5) run::sample(show(a));
        }
        clean();
    }, "crash", true);
}
} // namespace

void c18()
{
    const std::vector<std::string> all = {"in", "-o", "out", "new", "in2", "bad", "none", "d", "-x", "", "-", "--", "-oout", "d/out", "no/out", "-O", "--output", "-o=out", "-h"};
    const std::vector<std::string> some = {"in", "-o", "out", "new", "in2", "bad", "none", "-x", ""};
    const std::vector<std::string> few = {"in", "-o", "new", "out"};
    for (int n = 0; n <= 3; ++n) lists(all, n);
    const std::vector<std::string> dashes = {"in", "-o", "new", "--", "-x", "-"};
    lists(all, 4);
    lists(some, 5);
    lists(dashes, 5);
    lists(few, 6);
    if (run::thorough) {
        lists(some, 6);
        lists(dashes, 6);
        lists(few, 7);
        lists(few, 8);
    }
    // words that may look like options, among them every one the sources of the tool mention
    std::vector<std::string> option;
    for (int c = '!'; c <= '~'; ++c)
        if (c != 'o' && c != '/') option.push_back(std::string("-") + char(c));
    for (const char* w : {"help", "version", "verbose", "quiet", "silent", "debug", "output", "input", "force", "stdin", "stdout", "dksh", "raw", "binary", "type", "list", "dump", "no-dksh", "append", "color", "no-color", "o", "compute", "file", "usage", "in", "out", "warn", "werror", "strict", "format"})
        for (const char* d : {"--", "-", "/"}) {
            std::string s = std::string(d) + w;
            if (s != "-o" && d[0] == '-') option.push_back(s), option.push_back(s + "=new");
        }
    if (const char* p = std::getenv("NXAS_WORDS")) {
        std::string w;
        for (; *p; ++p)
            if (*p == '\n') {
                if (w != "-o") option.push_back(w);
                w.clear();
            } else w += *p;
    }
    option.insert(option.end(), {"-", "--", "-o ", "-o=", "-oo", "-o-", "@in", "+o", "=", "*", "?", "~", "-1", "-in", "-new", "--in", "--o", "---"});
    std::sort(option.begin(), option.end());
    option.erase(std::unique(option.begin(), option.end()), option.end());
    std::erase_if(option, [](const std::string& s) { return s.empty() || s.find('/') != s.npos || s.find('\0') != s.npos || s == "." || s == ".." || s.size() > 200 || initial().count(s) || initial().count(s + "/"); });
    run::all("words like options", option.size(), [&](size_t k) {
        const std::string& w = option[k];
        for (const std::vector<std::string>& a : std::vector<std::vector<std::string>>{
                 {w}, {w, "in"}, {w, w}, {w, "in", "-o", "new"}, {"in", w, "-o", "new"}, {"in", "-o", w, "new"}, {"in", "-o", "new", w}, {"in", "-o", w}, {w, "-o", "new"}, {"-o", "new", w}, {"-o", w, "in"}, {w, "in", "new"},
                 {"in", w, "new"}, {"in", w}, {w, "new", "-o", "in"}, {w, "1", "in", "-o", "new"}, {"in", "-o", "new", w, "1"}, {"-o", w}, {w, "-o", w}, {"bad", w, "-o", "new"}, {w, "in", w, "-o", "new"}})
            one(a);
        const Files file = {{w, "MOV R1, R9;"}}; // a file of that name
        for (const std::vector<std::string>& a : std::vector<std::vector<std::string>>{
                 {w}, {w, "-o", "new"}, {"-o", "new", w}, {w, "-o", w}, {"in", "-o", w}, {w, "in", "-o", "new"}, {"-o", w, "in"}, {"in", w, "-o", "new"}, {"in", "-o", "new", w}})
            one(a, file);
        clean();
    }, "crash", true);
    run::bound(std::to_string(option.size()) + " words that look like options, among them every string of the sources, in 30 lists each");
    // unusual paths
    std::vector<std::string> path = {"./new", ".//new", "d/../new", "d/new", "d/./new", "d//new", "././d/../new", "a b", " new", "new ", "n\tew", "n\new", "\xc3\xa9\xff", "%s%s%s%s", "%n%n", "%d", "%", "n%", "new.bin", "new.", ".new", "n'e\"w", "$HOME", "`id`", ";", "a;b", "&", "|", "in.", "IN", "in ", "outt", "ou", "nul", "con", "-out", "\\", "a\\b", "...", "..new", "#new", "\33[31m", "0"};
    for (size_t n : {31, 32, 33, 60, 63, 64, 65, 100, 127, 128, 129, 200, 250, 254, 255, 256, 300, 1000, 4095, 4096, 5000}) path.push_back(std::string(n, 'n'));
    run::all("paths", path.size(), [&](size_t k) {
        const std::string& w = path[k];
        for (const std::vector<std::string>& a : std::vector<std::vector<std::string>>{{w}, {w, "-o", "new"}, {"in", "-o", w}, {"-o", w, "in"}, {"in", w}, {"in", "-o", w, w}, {"bad", "-o", w}, {"-o", w, "none"}}) one(a);
        const std::string name = plain_name(w);
        if (name.size() <= 255) {
            const Files file = {{name, "MOV R1, R9;" + std::string(3000, ' ')}};
            for (const std::vector<std::string>& a : std::vector<std::vector<std::string>>{{w, "-o", "out"}, {"-o", "out", w}, {"in", "-o", w}, {w, "-o", w}, {"bad", "-o", w}, {"in", "-o", w, "-o", "out"}, {w, w, "-o", "out"}}) one(a, file);
        }
        clean();
    }, "crash", true);
    run::bound(std::to_string(path.size()) + " unusual paths as input and as output, existing and not");
    // every form's text, and texts of every size, through the tool
    std::vector<std::string> text;
    for (auto& f : model::forms()) {
        text.push_back(gen::simplest(f.index));
        text.push_back(gen::rich(f.index));
    }
    for (int n = 0; n < 40; ++n) {
        std::string t;
        for (int i = 0; i < n; ++i) t += "MOV R" + std::to_string(i) + ", R3;\n";
        text.push_back(t);
        text.push_back(".dksh compute\nmain:\n" + t);
    }
    for (int n : {1000, 5000, 20000}) {
        std::string t;
        for (int i = 0; i < n; ++i) t += "MOV R" + std::to_string(i % 255) + ", R3;\n";
        text.push_back(t);
    }
    // all sizes around the buffers of the standard library, by a comment-free padding of white space
    for (int n : {4090, 8180, 16370, 32760, 65520})
        for (int d = 0; d < 30; ++d) text.push_back(std::string(size_t(n + d), ' ') + "MOV R1, R2;");
    for (int c = 0; c < 256; ++c) {
        text.push_back("NOP;" + std::string(1, char(c)));
        text.push_back("NOP;" + std::string(1, char(c)) + "MOV R1, R2;");
    }
    run::all("texts through the tool", text.size(), [&](size_t k) {
        one({"text", "-o", "new"}, {{"text", text[k]}});
        one({"-o", "out", "text"}, {{"text", text[k]}});
        clean();
    }, "crash", true);
    run::bound("all argument lists up to 4 of 19, 5 of 9 and of another 6, 6 of 4 arguments (thorough: 6 of 9 and of 6, 8 of 4), with legal, illegal and missing inputs, existing and new outputs, directories; " + std::to_string(text.size()) + " texts through the tool in both argument orders");
}

} // namespace check
