// C16: different instructions never share an encoding.
#include "check.hpp"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <sys/mman.h>
#include <mutex>
#include <thread>
#include <tuple>

namespace check {
namespace {
struct Entry {
    uint64_t word, key;
    uint32_t sched, item;
    uint32_t seq, pad;
};
struct Table {
    std::atomic<uint64_t> n;
    uint64_t capacity;
    Entry e[1];
};
Table* table;

uint64_t hash(std::string_view s)
{
    uint64_t h = 0x9E3779B97F4A7C15ULL;
    for (unsigned char c : s) {
        h ^= c;
        h *= 0xFF51AFD7ED558CCDULL;
        h ^= h >> 29;
    }
    h *= 0xC4CEB9FE1A85EC53ULL;
    return h ^ (h >> 32);
}
uint64_t mix(uint64_t a, uint64_t b)
{
    uint64_t h = (a ^ (b * 0x9E3779B97F4A7C15ULL)) * 0xFF51AFD7ED558CCDULL;
    return h ^ (h >> 31);
}

// Meaning of a text. One that the model rejects stands for its own tokens: if the code accepts it all the same, it
// must not share an encoding either.
std::string meaning(const std::string& t, const model::Program& m)
{
    if (m.ok) return m.insns[0].key;
    std::string k = "illegal:";
    for (auto& w : gen::split_tokens(t)) {
        char* end = nullptr;
        errno = 0;
        long long v = std::strtoll(w.c_str(), &end, 0);
        k += !*end && !errno ? std::to_string(v) : w;
        k += ' ';
    }
    return k;
}

struct Item { int kind, form, first; };
std::vector<Item> items;

// All texts of an item.
void texts(const Item& it, const std::function<void(const std::string&)>& fn)
{
    const auto& ch = gen::choices()[it.form];
    switch (it.kind) {
    case 0: // deviations
        gen::deviations(it.form, it.first < 0 ? 0 : 3, run::thorough ? 2 : 1, it.first, [&](auto& p) { fn(gen::text(it.form, p)); });
        break;
    case 1: // guards
        for (auto& g : gen::guards)
            gen::deviations(it.form, 1, 0, -1, [&](auto& p) { fn(gen::text(it.form, p, g)); });
        break;
    case 2: { // products of modifiers
        std::vector<uint32_t> pick(ch.size(), 0);
        uint64_t n = 1;
        for (auto& c : ch)
            if (c.modifier) n *= c.alt.size();
        if (n > 4000000) break;
        for (uint64_t x = 0; x < n; ++x) {
            uint64_t y = x;
            for (size_t i = 0; i < ch.size(); ++i)
                if (ch[i].modifier) pick[i] = uint32_t(y % ch[i].alt.size()), y /= ch[i].alt.size();
            fn(gen::text(it.form, pick));
        }
        break;
    }
    case 3: { // numbers: all one- and two-bit values and their complements, and other spellings
        const auto& o = model::forms()[it.form].ops[it.first];
        auto put = [&](const std::string& s) { fn(gen::simplest(it.form, it.first, s)); };
        auto n = [&](int64_t v, int how) {
            char b[40];
            if (how == 0) std::snprintf(b, sizeof b, "%lld", (long long)v);
            else std::snprintf(b, sizeof b, v < 0 ? "-0x%llx" : "0x%llx", (unsigned long long)(v < 0 ? -v : v));
            return std::string(b);
        };
        for (int i = 0; i < 33; ++i)
            for (int j = 0; j <= i; ++j)
                for (int64_t v : {(int64_t(1) << i) | (int64_t(1) << j), (int64_t(1) << i) - (int64_t(1) << j), -(int64_t(1) << i) - (int64_t(1) << j), -(int64_t(1) << i) + (int64_t(1) << j)})
                    for (int how = 0; how < 2; ++how) {
                        std::string s = n(v, how), sg = v < 0 ? s : "+" + s;
                        switch (o.kind) {
                        case model::Op::CBuf: put("c[0x2][" + s + "]"); if (i < 6) put("c[" + s + "][0x4]"); break;
                        case model::Op::Addr: put("[R2" + sg + "]"); put("[" + s + "]"); put("[RZ" + sg + "]"); break;
                        case model::Op::LdcAddr: put("c[0x2][R2" + sg + "]"); put("c[0x2][" + s + "]"); put("c[0x2][RZ" + sg + "]"); if (i < 6) put("c[" + s + "][R2+0x4]"); break;
                        case model::Op::AttrImm: put("a[" + s + "]"); break;
                        case model::Op::AttrPatch: put("a[R2" + sg + "]"); put("a[R2+" + s + "]"); break;
                        default: put(s); break;
                        }
                    }
        break;
    }
    case 4: // annotations and reuse
        for (const char* a : {"", " @WAIT 0", " @WAIT 1", " @WAIT 15", " @Y", " @YIELD", " @WB 0", " @WB 5", " @RB 0", " @RB 5", " @DEP 0", " @DEP 5", " @DEP 0 @DEP 5", " @DEP 5 @DEP 0", " @WAIT 1 @Y @WB 1 @RB 2 @DEP 3", " @DEP 3 @RB 2 @WB 1 @Y @WAIT 1"})
            gen::deviations(it.form, 1, 0, -1, [&](auto& p) {
                std::string t = gen::text(it.form, p);
                t.pop_back();
                fn(t + a + ";");
            });
        break;
    case 5: { // an explicitly written default for every optional modifier, alone and in pairs
        gen::deviations(it.form, 1, 1, -1, [&](auto& p) {
            for (auto& g : {std::string("@PT "), std::string()}) fn(g + gen::text(it.form, p));
        });
        break;
    }
    case 6: { // the form's own words added to, removed from and exchanged in its texts: mostly illegal
        std::vector<std::string> words;
        for (auto& c : ch)
            if (c.modifier)
                for (auto& a : c.alt)
                    if (!a.empty())
                        for (auto& w : gen::split_tokens(a)) words.push_back(w);
        for (const char* w : {"-", "~", "|"}) words.push_back(w);
        std::sort(words.begin(), words.end());
        words.erase(std::unique(words.begin(), words.end()), words.end());
        auto join = [&](const std::vector<std::string>& t) {
            std::string s;
            for (auto& w : t) s += w + " ";
            fn(s);
        };
        gen::deviations(it.form, 1, 1, -1, [&](auto& p) {
            for (size_t i = 0; i < p.size(); ++i)
                if (p[i] && (!ch[i].modifier && p[i] > 3)) return; // few registers
            auto t = gen::split_tokens(gen::text(it.form, p));
            for (size_t i = 1; i + 1 < t.size(); ++i) {
                auto e = t;
                e.erase(e.begin() + long(i));
                join(e);
                for (auto& w : words) {
                    e = t;
                    e.insert(e.begin() + long(i), w);
                    join(e);
                    e = t;
                    e[i] = w;
                    join(e);
                }
            }
        });
        break;
    }
    }
}

std::string find(uint32_t item, uint32_t seq)
{
    std::string out;
    uint32_t n = 0;
    texts(items[item], [&](const std::string& t) {
        if (n++ == seq) out = t;
    });
    return out;
}

bool judge(unsigned, std::string_view both, const char* kind)
{
    size_t z = both.find('\0');
    std::string a(both.substr(0, z)), b(both.substr(z + 1));
    auto ra = run::assemble(a);
    auto rb = run::assemble(b);
    if (!ra.ok() || !rb.ok()) return true;
    model::Options o;
    o.keys = true;
    auto pa = model::assemble(a, o), pb = model::assemble(b, o);
    if (ra.words.size() != 4 || rb.words.size() != 4) return true;
    bool same_key = meaning(a, pa) == meaning(b, pb);
    if (same_key == (ra.words == rb.words)) return true;
    run::violation(kind, a + "\n" + b, same_key ? "the two texts mean the same and assemble differently: " + impl::describe(ra) + " and " + impl::describe(rb)
                                                : "two different instructions assemble to the same words: " + impl::describe(ra));
    return false;
}
} // namespace

void c16()
{
    run::judge = judge;
    const auto& forms = model::forms();
    for (auto& f : forms) {
        items.push_back({0, f.index, -1});
        items.push_back({1, f.index, -1});
        items.push_back({2, f.index, -1});
        items.push_back({4, f.index, -1});
        items.push_back({5, f.index, -1});
        items.push_back({6, f.index, -1});
        for (size_t i = 0; i < f.ops.size(); ++i) {
            if (gen::choices()[f.index][i].alt.size() > 1) items.push_back({0, f.index, int(i)});
            switch (f.ops[i].kind) {
            case model::Op::UInt: case model::Op::SInt: case model::Op::SImm20: case model::Op::UImm20x: case model::Op::CBuf: case model::Op::Addr: case model::Op::LdcAddr:
            case model::Op::AttrImm: case model::Op::AttrPatch: case model::Op::Label: case model::Op::F20: case model::Op::F32: case model::Op::D20: case model::Op::H9: case model::Op::H16:
                items.push_back({3, f.index, int(i)});
                break;
            default: break;
            }
        }
    }
    const uint64_t cap = run::thorough ? 200000000 : 60000000;
    size_t bytes = sizeof(Table) + cap * sizeof(Entry);
    void* p = mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) std::abort();
    table = static_cast<Table*>(p);
    table->capacity = cap;
    run::all("encodings", items.size(), [&](size_t k) {
        uint32_t seq = 0;
        model::Options o;
        o.keys = true;
        std::vector<Entry> out;
        texts(items[k], [&](const std::string& t) {
            uint32_t id = seq++;
            uint64_t before = model::steps;
            model::Program m = model::assemble(t, o);
            run::transitions(model::steps - before);
            if (m.ok && m.insns.size() != 1) return;
            const impl::Result& r = run::assemble(t);
            run::traces();
            if (!r.ok() || r.words.size() != 4) return; // C01's business
            run::states();
            out.push_back({r.words[1], hash(meaning(t, m)), uint32_t(r.words[0] & 0x1FFFFF), uint32_t(k), id, 0});
            if (k % 500 == 3 && id == 40) run::sample(t + "  =>  " + meaning(t, m));
        });
        uint64_t at = table->n.fetch_add(out.size());
        if (at + out.size() <= cap) std::memcpy(&table->e[at], out.data(), out.size() * sizeof(Entry));
    });
    const uint64_t n = std::min<uint64_t>(table->n, cap);
    if (table->n > cap) run::bound("capacity exceeded: only the first " + std::to_string(cap) + " encodings were compared");
    // partition by encoding, then by meaning, and compare neighbours
    struct Conflict { uint32_t i1, s1, i2, s2; };
    std::atomic<uint64_t> distinct_words{0}, distinct_keys{0};
    std::vector<Conflict> conflicts;
    std::mutex lock;
    for (int direction = 0; direction < 2 && !run::stop(); ++direction) {
        std::vector<std::thread> th;
        std::atomic<int> shard{0};
        for (int w = 0; w < 8; ++w)
            th.emplace_back([&] {
                for (int s; (s = shard++) < 32;) {
                    std::vector<const Entry*> v;
                    for (uint64_t i = 0; i < n; ++i) {
                        const Entry& e = table->e[i];
                        uint64_t h = direction ? e.key : mix(e.word, e.sched);
                        if (h % 32 == uint64_t(s)) v.push_back(&e);
                    }
                    std::sort(v.begin(), v.end(), [&](const Entry* a, const Entry* b) {
                        if (direction) return std::tie(a->key, a->word, a->sched) < std::tie(b->key, b->word, b->sched);
                        return std::tie(a->word, a->sched, a->key) < std::tie(b->word, b->sched, b->key);
                    });
                    uint64_t d = v.empty() ? 0 : 1;
                    for (size_t i = 1; i < v.size(); ++i) {
                        const Entry &a = *v[i - 1], &b = *v[i];
                        bool same_code = a.word == b.word && a.sched == b.sched, same_key = a.key == b.key;
                        if (direction ? !same_key : !same_code) ++d;
                        if (same_code != same_key && (direction ? same_key : same_code)) {
                            std::lock_guard<std::mutex> g(lock);
                            if (conflicts.size() < 50) conflicts.push_back({a.item, a.seq, b.item, b.seq});
                        }
                    }
                    (direction ? distinct_keys : distinct_words) += d;
                }
            });
        for (auto& t : th) t.join();
    }
    run::all("conflicts", conflicts.size(), [&](size_t k) {
        const Conflict& c = conflicts[k];
        std::string a = find(c.i1, c.s1), b = find(c.i2, c.s2);
        run::confirm(0, a + '\0' + b, "shared encoding");
    });
    run::note("distinct_encodings", std::to_string(distinct_words));
    run::note("distinct_meanings", std::to_string(distinct_keys));
    run::bound("all pairs among " + std::to_string(n) + " accepted texts: up to 3" +
               " operands away from the default (" + (run::thorough ? "two" : "one") + " over all alternatives), 17 guards, complete products of modifiers, one- and two-bit numbers in two spellings, 16 annotation lists, the form's own words added, removed and exchanged (texts that are not legal instructions count when the code accepts them), for all " + std::to_string(forms.size()) + " forms");
}

} // namespace check
