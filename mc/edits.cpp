#include "edits.hpp"
#include "check.hpp"
#include <algorithm>
#include <set>

namespace edits {
using check::conform;

std::string plain(const std::vector<std::string>& tokens)
{
    std::string s;
    for (auto& t : tokens) s += t, s += ' ';
    s.pop_back();
    return s;
}

std::string spread(const std::vector<std::string>& tokens)
{
    static const char* const gap[] = {"\n", " ", "\t", "\n\t ", "", "\r\n", " \t\t"};
    std::string s = "\n\nlabel:\n\tNOP;  @P1 MOV R1,\tR2; EXIT;\nSHL R1, R2, R3; \n other: \t";
    for (size_t i = 0; i < tokens.size(); ++i) {
        s += tokens[i];
        const char* g = gap[i % 7];
        if (!*g && i + 1 < tokens.size()) {
            char a = tokens[i].back(), b = tokens[i + 1][0];
            bool delimited = std::string_view("~|[]@,;").find(a) != std::string_view::npos || std::string_view("~|[]@,;").find(b) != std::string_view::npos;
            if (!delimited) g = " ";
        }
        s += g;
    }
    s += "\nEXIT;\nIADD R1, R2, R3;\n";
    return s;
}

const std::vector<std::string>& vocabulary()
{
    static const std::vector<std::string> v = [] {
        std::set<std::string> s;
        for (auto& f : model::forms()) {
            for (size_t i = 0; i < f.ops.size(); ++i) {
                const auto& c = gen::choices()[f.index][i];
                for (auto& a : c.alt) {
                    if (a.empty()) continue;
                    for (auto& t : gen::split_tokens(a))
                        if (t[0] == '.' || (c.modifier && t[0] != '=' && t[0] != '~')) s.insert(t);
                }
            }
        }
        for (const char* w : {"+", "-", "~", "|", "[", "]", "@", ",", ";", "R0", "R9", "RZ", "R254", "R255", "R256", "R", "RG", "P0", "PT", "P6", "P7", "P", "!P0",
                              "!PT", "!", "pt", "0", "1", "-1", "+1", "0x7fffffffff", "1.5", "-0.5", ".5", "INF", "QNAN", "c", "a", "CC", ".", "..", ".reuse", ".nothing",
                              ".CC", ".dksh", ".type", "compute", "nothing", "#", "?", "x", "NOP", "EXIT", "MOV", "WAIT", "Y", "DEP", "WB", "SR_TID", "SR_LANEID", "(", ")",
                              "\"", "'", "\\", "/", "//", "/*", "{", "}", "=", "*", "&", "%", "$", "\x80", "\xff", "\v", "\f", "\x01", "_", "^", "<", ">", "`"})
            s.insert(w);
        return std::vector<std::string>(s.begin(), s.end());
    }();
    return v;
}

static std::vector<std::string> misspelt(const std::string& t)
{
    std::vector<std::string> v;
    std::string l = t, u = t;
    for (char& c : l) c = char(std::tolower(c));
    for (char& c : u) c = char(std::toupper(c));
    for (auto& x : {l, u, t.substr(0, t.size() - 1), t + t.back(), t + "X", t + "0", t + "_", t.substr(1), "." + t, t.substr(0, 1) + t, t + "."})
        if (x != t && !x.empty()) v.push_back(x);
    return v;
}

void run_all(Join join, unsigned what, const char* kind)
{
    // base texts: the simplest and the richest text of each form, with and without guard and annotations
    struct Base { std::vector<std::string> t; };
    std::vector<Base> bases;
    for (auto& f : model::forms()) {
        std::set<std::string> seen;
        auto add = [&](std::string s) {
            if (seen.insert(s).second) bases.push_back({gen::split_tokens(s)});
        };
        add(gen::simplest(f.index));
        add(gen::rich(f.index));
        if (f.index % 8 == 0 && !f.nopred) {
            std::string s = gen::simplest(f.index);
            s.pop_back();
            add("@!P3 " + s + " @WAIT 3 @DEP 1 @YIELD;");
        }
    }
    const auto& voc = vocabulary();
    run::all("one-token edits", bases.size(), [&](size_t k) {
        const std::vector<std::string>& b = bases[k].t;
        auto put = [&](const std::vector<std::string>& t) {
            if (!run::stop()) conform(join(t), what, kind);
        };
        for (size_t i = 0; i <= b.size(); ++i) {
            std::vector<std::string> t = b;
            t.insert(t.begin() + long(i), "");
            for (auto& w : voc) {
                t[i] = w;
                put(t);
            }
            if (i == b.size()) break;
            t = b;
            for (auto& w : voc) {
                t[i] = w;
                put(t);
            }
            for (auto& m : model::mnemonics()) {
                if (i > 1) break;
                t[i] = m;
                put(t);
            }
            for (auto& w : misspelt(b[i])) {
                t[i] = w;
                put(t);
            }
            t = b; // delete, repeat, truncate, swap, move
            t.erase(t.begin() + long(i));
            if (!t.empty()) put(t);
            t = b;
            t.insert(t.begin() + long(i), b[i]);
            put(t);
            if (i) put({b.begin(), b.begin() + long(i)});
            put({b.begin() + long(i), b.end()});
            for (size_t j = i + 1; j < b.size(); ++j) {
                t = b;
                std::swap(t[i], t[j]);
                put(t);
                if (j == i + 1) continue;
                t = b; // move i behind j
                std::string x = t[i];
                t.erase(t.begin() + long(i));
                t.insert(t.begin() + long(j), x);
                put(t);
                t = b; // cut i .. j
                t.erase(t.begin() + long(i), t.begin() + long(j));
                put(t);
                t = b; // repeat i .. j
                t.insert(t.begin() + long(j), b.begin() + long(i), b.begin() + long(j));
                put(t);
            }
        }
        if (k % 60 == 7) run::sample(join(b));
    });
    // every other choice of every operand: deleted, repeated, swapped and cut at every token; all words at the tokens
    // that the choice brings in and their neighbours
    struct Item { int form, at; uint32_t alt; };
    std::vector<Item> items;
    for (auto& f : model::forms())
        for (size_t i = 0; i < f.ops.size(); ++i) {
            const auto& c = gen::choices()[f.index][i];
            const size_t n = c.modifier ? c.alt.size() : run::thorough ? c.alt.size() : c.core;
            for (uint32_t k = 1; k < n; ++k) items.push_back({f.index, int(i), k});
        }
    run::all("edits of single choices", items.size(), [&](size_t k) {
        std::vector<uint32_t> pick(model::forms()[items[k].form].ops.size(), 0);
        const auto a = gen::split_tokens(gen::text(items[k].form, pick));
        pick[items[k].at] = items[k].alt;
        const auto b = gen::split_tokens(gen::text(items[k].form, pick));
        if (a == b || b.empty()) return;
        size_t from = 0, to = 0; // equal tokens at both ends
        while (from < a.size() && from < b.size() && a[from] == b[from]) ++from;
        while (to + from < a.size() && to + from < b.size() && a[a.size() - 1 - to] == b[b.size() - 1 - to]) ++to;
        auto put = [&](const std::vector<std::string>& t) {
            if (!run::stop() && !t.empty()) conform(join(t), what, kind);
        };
        for (size_t i = 0; i < b.size(); ++i) {
            auto t = b;
            t.erase(t.begin() + long(i));
            put(t);
            t = b;
            t.insert(t.begin() + long(i), b[i]);
            put(t);
            for (size_t j = i + 1; j < b.size(); ++j) {
                t = b;
                std::swap(t[i], t[j]);
                put(t);
                t = b;
                t.erase(t.begin() + long(i), t.begin() + long(j));
                put(t);
            }
            if (i + 1 < from || i > b.size() - to) continue;
            for (auto& w : voc) {
                t = b;
                t[i] = w;
                put(t);
                t = b;
                t.insert(t.begin() + long(i), w);
                put(t);
            }
        }
    });
    run::bound(std::to_string(items.size()) + " single choices of operands: every token deleted, repeated, swapped with every other, every range cut, all words at and around the chosen operand");
    // every word of every modifier list, misspelt
    run::all("misspelt choices", model::forms().size(), [&](size_t k) {
        const auto& ch = gen::choices()[k];
        for (size_t i = 0; i < ch.size(); ++i)
            if (ch[i].modifier || model::forms()[k].ops[i].kind == model::Op::S2r)
                for (auto& a : ch[i].alt)
                    if (a.size() > 1 && a[0] != '~' && a[0] != '=')
                        for (auto& w : misspelt(a)) {
                            if (run::stop()) return;
                            auto t = gen::split_tokens(gen::simplest(int(k), int(i), w));
                            if (!t.empty()) conform(join == plain ? gen::simplest(int(k), int(i), w) : join(t), what, kind);
                        }
    });
    run::bound(std::to_string(bases.size()) + " legal texts (simplest and richest of each form, some guarded and annotated): every token deleted, repeated, swapped and moved to every place, "
               "all cuts and repeats of token ranges, each of " + std::to_string(voc.size()) + " words inserted at and substituted for every token; every modifier misspelt in 11 ways");
}

} // namespace edits
