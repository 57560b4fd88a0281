#include "check.hpp"
#include <cstring>

namespace check {

std::string hex(const std::vector<uint64_t>& v)
{
    std::string s = std::to_string(v.size()) + " words:";
    for (size_t i = 0; i < v.size() && i < 12; ++i) {
        char b[24];
        std::snprintf(b, sizeof b, " %016llx", (unsigned long long)v[i]);
        s += b;
    }
    if (v.size() > 12) s += " ...";
    return s;
}

void explain(std::string_view text, const model::Program& p, const impl::Result& r, const char* kind)
{
    std::string d = "expected ";
    if (p.ok) {
        d += hex(p.words);
    } else {
        d += "a rejection";
        if (!p.where.empty()) {
            d += " at";
            for (auto& w : p.where) d += " " + std::to_string(w.line) + ":" + std::to_string(w.col);
        }
    }
    d += "; got ";
    d += impl::describe(r);
    if (p.ok && r.ok())
        for (size_t i = 0; i < std::max(p.words.size(), r.words.size()); ++i) {
            uint64_t a = i < p.words.size() ? p.words[i] : 0, b = i < r.words.size() ? r.words[i] : 0;
            if (i >= p.words.size() || i >= r.words.size() || a != b) {
                char buf[128];
                std::snprintf(buf, sizeof buf, "; first difference at word %zu: expected %016llx, got %016llx", i,
                              (unsigned long long)a, (unsigned long long)b);
                d += buf;
                break;
            }
        }
    run::violation(kind, text, d);
}

// Escape sequences removed.
static std::string plain(std::string_view s)
{
    std::string o;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] == '\33') {
            while (i < s.size() && s[i] != 'm') ++i;
            continue;
        }
        o += s[i];
    }
    return o;
}

bool diagnostic(std::string_view err, std::string_view file, model::Pos& pos, int& count)
{
    std::string e = plain(err);
    count = 0;
    std::string prefix = std::string(file) + ":";
    bool found = false;
    for (size_t b = 0; b < e.size();) {
        if (e.compare(b, prefix.size(), prefix) == 0) {
            int l = 0, c = 0, n = 0;
            if (std::sscanf(e.c_str() + b + prefix.size(), "%d:%d:%n", &l, &c, &n) == 2 && n) {
                if (!found) pos = {l, c};
                found = true;
                ++count;
            }
        }
        size_t nl = e.find('\n', b);
        if (nl == e.npos) break;
        b = nl + 1;
    }
    return found;
}

static bool conform2(std::string_view text, unsigned what, const char* kind, bool final);

// File names a text is assembled under; the first is the usual one.
const std::vector<std::string>& file_names()
{
    static const std::vector<std::string> n = {
        "file.sass", "a", "dir/sub dir/file name.s", "%s%d%n%p", "100%", "x:1:1: error", "\xc3\xa4\xff.s", "-", "a\\b", std::string(63, 'n'), std::string(255, 'n') + ".s",
        "/" + std::string(1000, 'd') + "/f", std::string(5000, 'p')};
    return n;
}

static bool judge(unsigned what, std::string_view text, const char* kind) { return conform2(text, what, kind, true); }
static const bool registered = (run::judge = judge, true);

bool conform(std::string_view text, unsigned what, const char* kind)
{
    run::states();
    uint64_t before = model::steps;
    struct Count {
        uint64_t before;
        ~Count() { run::transitions(model::steps - before); }
    } count{before};
    if (conform2(text, what, kind, false)) return true;
    return run::confirm(what, text, kind);
}

static void explain_if(bool final, std::string_view text, const model::Program& p, const impl::Result& r, const char* kind)
{
    if (final) explain(text, p, r, kind);
}

static bool conform2(std::string_view text, unsigned what, const char* kind, bool final)
{
    model::Program p = model::assemble(text);
    if (p.ok ? !(what & Accept) : !(what & (Reject | Position))) return true;
    const std::string& file = file_names()[what >> 8];
    const impl::Result& r = run::assemble(text, file.c_str());
    if (!final) run::traces();
    if (p.ok) {
        if (r.ok() && r.words == p.words) return true;
        explain_if(final, text, p, r, kind);
        return false;
    }
    if (what & Reject) {
        if (!r.rejected()) {
            explain_if(final, text, p, r, kind);
            return false;
        }
    }
    if ((what & Position) && r.kind == impl::Result::Reject && !p.where.empty()) {
        model::Pos pos{};
        int n = 0;
        bool found = diagnostic(r.err, file, pos, n);
        bool right = false;
        for (auto& w : p.where) right |= w == pos;
        if (!found || n != 1 || !right) {
            explain_if(final, text, p, r, kind);
            return false;
        }
    }
    return true;
}

} // namespace check
