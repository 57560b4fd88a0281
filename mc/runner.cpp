#include "runner.hpp"
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" [[noreturn]] void __real__exit(int);

namespace run {

bool thorough = false;
int jobs = 8;
int only_violations = 5;

namespace {
constexpr size_t TEXT = 1 << 16;
constexpr int MAXJOBS = 64;
constexpr double HANG = 20, HANG_ALONE = 90;

struct Slot {
    std::atomic<uint64_t> seq;
    std::atomic<uint64_t> item;
    std::atomic<uint32_t> len;
    std::atomic<bool> busy;
    char text[TEXT];
};
struct Shared {
    std::atomic<uint64_t> states, transitions, traces, free[16];
    std::atomic<uint64_t> next;
    std::atomic<uint32_t> violations, samples;
    std::atomic<bool> late;
    Slot slot[MAXJOBS];
};
Shared* sh = [] {
    void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) std::abort();
    return static_cast<Shared*>(p);
}();
Slot* me = &sh->slot[0];
uint64_t local_states, local_transitions, local_traces, local_free[16];
int log_fd = -1;
std::vector<std::pair<std::string, std::string>> notes;
std::vector<std::string> bounds, cut;
std::string phases;

double now()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return double(t.tv_sec) + double(t.tv_nsec) * 1e-9;
}

void flush_counts()
{
    sh->states += local_states;
    sh->transitions += local_transitions;
    sh->traces += local_traces;
    for (int i = 0; i < 16; ++i) {
        sh->free[i] += local_free[i];
        local_free[i] = 0;
    }
    local_states = local_transitions = local_traces = 0;
}

void json(std::string& o, std::string_view s)
{
    o += '"';
    for (unsigned char c : s) {
        char b[8];
        if (c == '"' || c == '\\') o += '\\', o += char(c);
        else if (c == '\n') o += "\\n";
        else if (c == '\t') o += "\\t";
        else if (c == '\r') o += "\\r";
        else if (c < 32 || c > 126) std::snprintf(b, sizeof b, "\\u%04x", c), o += b; // bytes as latin-1
        else o += char(c);
    }
    o += '"';
}

void log_line(const std::string& s)
{
    if (log_fd < 0) {
        log_fd = memfd_create("log", 0);
    }
    // O_APPEND keeps lines of different processes apart
    fcntl(log_fd, F_SETFL, O_APPEND);
    [[maybe_unused]] ssize_t r = write(log_fd, s.data(), s.size());
}
} // namespace

void states(uint64_t n) { local_states += n; }
void transitions(uint64_t n) { local_transitions += n; }
void traces(uint64_t n) { local_traces += n; }
void count(int which, uint64_t n) { local_free[which] += n; }
uint64_t counter(int which) { return sh->free[which] + local_free[which]; }

void mark(std::string_view text)
{
    size_t n = std::min(text.size(), TEXT);
    me->len = uint32_t(n);
    std::memcpy(me->text, text.data(), n);
    me->seq.fetch_add(1, std::memory_order_relaxed);
}

void alive() { me->seq.fetch_add(1, std::memory_order_relaxed); }

const impl::Result& assemble(std::string_view text, const char* filename)
{
    mark(text);
    return impl::assemble(text, filename);
}

void violation(std::string_view kind, std::string_view text, std::string_view detail)
{
    if (sh->violations.fetch_add(1) >= uint32_t(only_violations)) return;
    std::string s = "V {\"kind\":";
    json(s, kind);
    s += ",\"text\":";
    json(s, text.size() > (1 << 20) ? text.substr(0, 1 << 20) : text);
    s += ",\"detail\":";
    json(s, detail);
    s += "}\n";
    log_line(s);
}

// Past the time limit the rest of the space is left out, and the evidence says so.
static bool late()
{
    static const char* const limit = std::getenv("MC_DEADLINE");
    static const double end = limit ? std::atof(limit) : 0;
    if (end > 0 && !sh->late.load(std::memory_order_relaxed) && now() > end) sh->late = true;
    return sh->late.load(std::memory_order_relaxed);
}

bool stop() { return sh->violations >= uint32_t(only_violations) || late(); }

void sample(std::string_view s)
{
    if (sh->samples.load(std::memory_order_relaxed) >= 40) return;
    sh->samples.fetch_add(1);
    std::string l = "S ";
    json(l, s.substr(0, 400));
    l += "\n";
    log_line(l);
}

bool (*judge)(unsigned, std::string_view, const char*) = nullptr;

// A server process, forked before the worker runs anything; it forks once per request.
static int zygote = -1;

static bool read_all(int fd, void* p, size_t n)
{
    char* c = static_cast<char*>(p);
    while (n) {
        ssize_t r = read(fd, c, n);
        if (r <= 0) return false;
        c += r;
        n -= size_t(r);
    }
    return true;
}

static bool write_all(int fd, const void* p, size_t n)
{
    const char* c = static_cast<const char*>(p);
    while (n) {
        ssize_t r = write(fd, c, n);
        if (r <= 0) return false;
        c += r;
        n -= size_t(r);
    }
    return true;
}

static void serve(int fd)
{
    uint32_t h[3];
    while (read_all(fd, h, sizeof h)) {
        std::string text(h[1], 0), kind(h[2], 0);
        if (!read_all(fd, text.data(), h[1]) || !read_all(fd, kind.data(), h[2])) break;
        pid_t p = fork();
        if (!p) {
            alarm(60);
            bool good = judge(h[0], text, kind.c_str());
            __real__exit(good ? 0 : 1);
        }
        int st = 0;
        waitpid(p, &st, 0);
        char answer = 0;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) answer = 1;
        else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 1))
            violation("crash", text, WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ? "does not terminate" : "the process dies");
        if (!write_all(fd, &answer, 1)) break;
    }
    __real__exit(0);
}

bool confirm(unsigned mode, std::string_view text, const char* kind)
{
    if (zygote < 0) return judge(mode, text, kind);
    uint32_t h[3] = {mode, uint32_t(text.size()), uint32_t(std::strlen(kind))};
    char answer = 0;
    if (!write_all(zygote, h, sizeof h) || !write_all(zygote, text.data(), text.size()) ||
        !write_all(zygote, kind, h[2]) || !read_all(zygote, &answer, 1))
        return judge(mode, text, kind);
    if (answer) sh->free[14]++; // only after other texts
    return answer;
}

static void worker(int k, size_t n, const std::function<void(size_t)>& fn, int64_t only)
{
    me = &sh->slot[k];
    int sv[2];
    if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv) == 0) {
        pid_t z = fork();
        if (!z) {
            close(sv[0]);
            serve(sv[1]);
        }
        close(sv[1]);
        zygote = sv[0];
    }
    uint64_t leaked = impl::leaks();
    while (!stop()) {
        uint64_t i;
        if (only >= 0) {
            i = uint64_t(only);
        } else {
            i = sh->next.fetch_add(1);
            if (i >= n) break;
        }
        me->item = i;
        me->busy = true;
        me->seq++;
        fn(i);
        flush_counts();
        me->busy = false;
        if (only >= 0) break;
        if (impl::leaks() - leaked > 100000) __real__exit(7); // lost memory: a fresh process takes over
    }
    flush_counts();
    __real__exit(0);
}

static std::string how(int status)
{
    if (WIFSIGNALED(status)) return std::string("killed by signal ") + strsignal(WTERMSIG(status));
    return "process ended with status " + std::to_string(WEXITSTATUS(status));
}

// Runs one item alone; returns "" if it completes.
static std::string alone(int k, size_t n, const std::function<void(size_t)>& fn, uint64_t item)
{
    std::fflush(nullptr);
    pid_t p = fork();
    if (!p) worker(k, n, fn, int64_t(item));
    double since = now();
    uint64_t seq = sh->slot[k].seq;
    while (true) {
        int st;
        pid_t r = waitpid(p, &st, WNOHANG);
        if (r == p) {
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return "";
            return how(st);
        }
        if (sh->slot[k].seq != seq) seq = sh->slot[k].seq, since = now();
        if (now() - since > HANG_ALONE) {
            kill(p, SIGKILL);
            waitpid(p, &st, 0);
            return "does not terminate within " + std::to_string(int(HANG_ALONE)) + " s";
        }
        usleep(2000);
    }
}

// Runs one text in a fresh process; returns "" if it completes properly.
static std::string text_alone(std::string_view text)
{
    std::fflush(nullptr);
    pid_t p = fork();
    if (!p) {
        const impl::Result& r = impl::assemble(text);
        __real__exit(r.kind == impl::Result::Crash ? 99 : 0);
    }
    double since = now();
    int st;
    while (waitpid(p, &st, WNOHANG) != p) {
        if (now() - since > HANG_ALONE) {
            kill(p, SIGKILL);
            waitpid(p, &st, 0);
            return "does not terminate within " + std::to_string(int(HANG_ALONE)) + " s";
        }
        usleep(2000);
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return "";
    return how(st);
}

void all(const std::string& what, size_t n, const std::function<void(size_t)>& fn, const char* dying_is, bool whole_item)
{
    if (!n) return;
    if (late()) cut.push_back(what);
    if (stop()) return;
    double t0 = now();
    impl::init();
    sh->next = 0;
    flush_counts();
    if (log_fd < 0) {
        log_fd = memfd_create("log", 0);
    }
    uint64_t s0 = sh->states;
    int w = int(std::min<size_t>(size_t(jobs), n));
    std::vector<pid_t> pid(w, 0);
    std::vector<uint64_t> seq(w, 0);
    std::vector<double> since(w, now());
    std::vector<std::pair<int, uint64_t>> suspects; // slot, item
    auto spawn = [&](int k) {
        sh->slot[k].busy = false;
        std::fflush(nullptr);
        pid[k] = fork();
        if (pid[k] < 0) {
            std::perror("fork");
            std::exit(3);
        }
        if (!pid[k]) worker(k, n, fn, -1);
        since[k] = now();
    };
    auto failed = [&](int k, uint64_t item) {
        const bool complete = sh->slot[k].len < TEXT;
        std::string text(sh->slot[k].text, sh->slot[k].len);
        std::string died = whole_item || !complete ? alone(k, n, fn, item) : text_alone(text);
        if (died.empty()) {
            sh->free[15]++; // did not happen again
            return;
        }
        violation(dying_is, text, died);
    };
    for (int k = 0; k < w; ++k) spawn(k);
    int running = w;
    while (running) {
        int st;
        pid_t p = waitpid(-1, &st, WNOHANG);
        if (p > 0) {
            int k = 0;
            while (k < w && pid[k] != p) ++k;
            if (k == w) continue;
            pid[k] = 0;
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && !sh->slot[k].busy) {
                --running;
            } else if (WIFEXITED(st) && WEXITSTATUS(st) == 7 && !sh->slot[k].busy) {
                spawn(k);
            } else {
                failed(k, sh->slot[k].item);
                if (stop()) --running;
                else spawn(k);
            }
            continue;
        }
        double t = now();
        for (int k = 0; k < w; ++k) {
            if (!pid[k]) continue;
            if (sh->slot[k].seq != seq[k]) seq[k] = sh->slot[k].seq, since[k] = t;
            else if (t - since[k] > HANG) kill(pid[k], SIGKILL);
        }
        usleep(2000);
    }
    if (late()) cut.push_back(what);
    char b[256];
    std::snprintf(b, sizeof b, "%s: %zu items, %llu states, %.1f s", what.c_str(), n,
                  (unsigned long long)(sh->states - s0), now() - t0);
    std::fprintf(stderr, "  %s\n", b);
    if (!phases.empty()) phases += "; ";
    phases += b;
}

void ranges(const std::string& what, uint64_t n, uint64_t chunk, const std::function<void(uint64_t, uint64_t)>& fn)
{
    uint64_t items = (n + chunk - 1) / chunk;
    all(what, items, [&](size_t i) { fn(i * chunk, std::min<uint64_t>(n, (i + 1) * chunk)); });
}

void note(const std::string& key, const std::string& value) { notes.emplace_back(key, value); }
void bound(const std::string& text) { bounds.push_back(text); }

int finish(const std::string& property, const char* out)
{
    flush_counts();
    std::string lines;
    if (log_fd >= 0) {
        off_t n = lseek(log_fd, 0, SEEK_END);
        lines.resize(size_t(n));
        if (pread(log_fd, lines.data(), size_t(n), 0) < 0) lines.clear();
    }
    std::string v, s;
    size_t b = 0;
    int nv = 0;
    while (b < lines.size()) {
        size_t e = lines.find('\n', b);
        if (e == lines.npos) break;
        std::string_view l = std::string_view(lines).substr(b, e - b);
        if (l.starts_with("V ")) v += (v.empty() ? "" : ",\n") + std::string(l.substr(2)), ++nv;
        else if (l.starts_with("S ")) s += (s.empty() ? "" : ",\n") + std::string(l.substr(2));
        b = e + 1;
    }
    std::string o = "{\"property\":";
    json(o, property);
    auto num = [&](const char* k, uint64_t n) { o += std::string(",\n\"") + k + "\":" + std::to_string(n); };
    num("states", sh->states);
    num("transitions", sh->transitions);
    num("traces", sh->traces);
    num("deaths_not_confirmed", sh->free[15]);
    num("suspicions_not_confirmed", sh->free[14]);
    o += ",\n\"bounds\":[";
    for (size_t i = 0; i < bounds.size(); ++i) {
        if (i) o += ",\n";
        json(o, bounds[i]);
    }
    o += "],\n\"cut\":[";
    for (size_t i = 0; i < cut.size(); ++i) {
        if (i) o += ",\n";
        json(o, cut[i]);
    }
    o += "],\n\"notes\":{";
    for (size_t i = 0; i < notes.size(); ++i) {
        if (i) o += ",\n";
        json(o, notes[i].first);
        o += ":";
        json(o, notes[i].second);
    }
    o += "},\n\"phases\":";
    json(o, phases);
    o += ",\n\"samples\":[" + s + "],\n\"violations\":[" + v + "]}\n";
    FILE* f = out ? std::fopen(out, "w") : stdout;
    if (!f) {
        std::perror(out);
        return 3;
    }
    std::fwrite(o.data(), 1, o.size(), f);
    if (out) std::fclose(f);
    return nv || sh->violations ? 1 : 0;
}

} // namespace run
