#include "sched.hpp"
#include "impl.hpp"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <condition_variable>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <mutex>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" [[noreturn]] void __real__exit(int);
extern "C" int __real_pthread_mutex_lock(pthread_mutex_t*);
extern "C" int __real_pthread_mutex_unlock(pthread_mutex_t*);
extern "C" int __real_pthread_rwlock_rdlock(pthread_rwlock_t*);
extern "C" int __real_pthread_rwlock_wrlock(pthread_rwlock_t*);
extern "C" int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
extern "C" int __real_pthread_once(pthread_once_t*, void (*)());
extern "C" int __real___cxa_guard_acquire(uint64_t*);
extern "C" void __real___cxa_guard_release(uint64_t*);
extern "C" void __real___cxa_guard_abort(uint64_t*);
extern "C" void* __real_memcpy(void*, const void*, size_t);
extern "C" void* __real_memmove(void*, const void*, size_t);
extern "C" void* __real_memset(void*, int, size_t);
extern "C" int __real_memcmp(const void*, const void*, size_t);

namespace sched {
namespace {
constexpr int MAXT = 3;
constexpr size_t ARENA = size_t(64) << 20;
constexpr uint32_t CELLS = 1 << 18;

// What happened to 8 bytes of memory. Two accesses race if they are not ordered by synchronisation.
struct Cell {
    uint64_t addr;
    uint16_t read, write, sync; // thread masks
    uint8_t writer;
    bool race;
    uint32_t written_at, read_at[MAXT], clock[MAXT];
};

struct Thread {
    int index;
    uintptr_t stack_low, stack_high;
    char* arena;
    size_t used;
    sem_t go;
    bool done;
    bool in_hook;
    uint32_t clock[MAXT]; // what of the other threads is known to have happened
};

Thread threads[MAXT];
int count;
thread_local Thread* cur = nullptr;
std::atomic<int> running{0};
std::atomic<uint64_t> progress{0};
std::atomic<bool> released{false}; // somebody blocked outside our control: all run freely
sem_t finished;

const Script* script;
uint64_t point_no;
size_t next_switch;
Cell* cells;
uint32_t cell_count;
bool cell_overflow;
uint64_t access_no;

struct Shared { // what the child tells its parent
    uint64_t points, accesses;
    uint32_t done, overflow, helped;
    uint32_t nconf, nwritten, nused;
    uint64_t conf[4096], written[4096], used_[4096];
    struct { uint32_t ok, n; char err[256]; uint64_t words[1 << 14]; } result[MAXT];
};
Shared* out;

// Lets another thread run and waits for the next turn.
void hand_over(Thread* t)
{
    for (int i = 1; i < count; ++i) {
        Thread& o = threads[(t->index + i) % count];
        if (o.done) continue;
        running = o.index;
        sem_post(&o.go);
        while (sem_wait(&t->go) && errno == EINTR) {}
        return;
    }
}

void point(Thread* t)
{
    progress.fetch_add(1, std::memory_order_relaxed);
    if (released) return;
    uint64_t n = point_no++;
    if (next_switch < script->switch_at.size() && script->switch_at[next_switch] == n) {
        ++next_switch;
        hand_over(t);
    }
}

Cell* find(uint64_t cell)
{
    uint32_t h = uint32_t((cell * 0x9E3779B97F4A7C15ULL) >> 46) & (CELLS - 1);
    while (cells[h].addr && cells[h].addr != cell) h = (h + 1) & (CELLS - 1);
    if (!cells[h].addr) {
        if (cell_count > CELLS / 2) {
            cell_overflow = true;
            return nullptr;
        }
        ++cell_count;
        cells[h].addr = cell;
    }
    return &cells[h];
}

void note(Thread* t, uint64_t cell, bool write)
{
    Cell* c = find(cell);
    if (!c) return;
    (write ? c->write : c->read) |= uint16_t(1 << t->index);
    if (c->writer && c->writer != t->index + 1 && c->written_at > t->clock[c->writer - 1]) c->race = true;
    if (write) {
        for (int u = 0; u < count; ++u)
            if (u != t->index && c->read_at[u] > t->clock[u]) c->race = true;
        c->writer = uint8_t(t->index + 1);
        c->written_at = t->clock[t->index];
    } else {
        c->read_at[t->index] = t->clock[t->index];
    }
}

// An operation that orders threads: atomics, locks, guards of static variables.
void synchronise(Thread* t, uint64_t cell)
{
    Cell* c = find(cell);
    if (!c) return;
    c->sync |= uint16_t(1 << t->index);
    for (int u = 0; u < count; ++u) c->clock[u] = t->clock[u] = std::max(c->clock[u], t->clock[u]);
    ++t->clock[t->index];
}

void access(const void* p, size_t n, bool write, bool sync = false)
{
    Thread* t = cur;
    if (!t || t->in_hook) return;
    uintptr_t a = reinterpret_cast<uintptr_t>(p);
    if (a - t->stack_low < t->stack_high - t->stack_low) return;
    t->in_hook = true;
    if (script->points == Accesses) {
        point(t);
    } else if (script->points == Conflicts) {
        for (uintptr_t c = a >> 3; c <= (a + (n ? n - 1 : 0)) >> 3; ++c)
            if (std::binary_search(script->cells.begin(), script->cells.end(), c)) {
                point(t);
                break;
            }
    } else {
        progress.fetch_add(1, std::memory_order_relaxed);
    }
    ++access_no;
    if (script->record && sync)
        synchronise(t, a >> 3);
    else if (script->record && n)
        for (uintptr_t c = a >> 3; c <= (a + n - 1) >> 3; ++c) note(t, c, write);
    t->in_hook = false;
}

void blocked(Thread* t) // cannot go on until another thread has
{
    if (released) {
        usleep(50);
        return;
    }
    hand_over(t);
}
} // namespace
} // namespace sched

using sched::access;
using sched::cur;

// Memory of a controlled thread comes from its own region and is never reused, so that addresses are the same in
// every run and no two threads meet at an address by accident.
void* operator new(size_t n)
{
    if (sched::Thread* t = cur) {
        size_t at = (t->used + 15) & ~size_t(15);
        if (at + n > sched::ARENA) throw std::bad_alloc();
        t->used = at + n;
        return t->arena + at;
    }
    void* p = std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept
{
    for (int i = 0; i < sched::count; ++i)
        if (static_cast<char*>(p) >= sched::threads[i].arena && static_cast<char*>(p) < sched::threads[i].arena + sched::ARENA) return;
    std::free(p);
}
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }

extern "C" {
#define ACCESS(n) \
    void __tsan_read##n(void* p) { access(p, n, false); } \
    void __tsan_write##n(void* p) { access(p, n, true); } \
    void __tsan_unaligned_read##n(void* p) { access(p, n, false); } \
    void __tsan_unaligned_write##n(void* p) { access(p, n, true); } \
    void __tsan_volatile_read##n(void* p) { access(p, n, false); } \
    void __tsan_volatile_write##n(void* p) { access(p, n, true); } \
    void __tsan_read##n##_pc(void* p, void*) { access(p, n, false); } \
    void __tsan_write##n##_pc(void* p, void*) { access(p, n, true); }
ACCESS(1) ACCESS(2) ACCESS(4) ACCESS(8) ACCESS(16)
void __tsan_read_range(void* p, size_t n) { access(p, n, false); }
void __tsan_write_range(void* p, size_t n) { access(p, n, true); }
void __tsan_vptr_update(void** p, void*) { access(p, 8, true); }
void __tsan_vptr_read(void** p) { access(p, 8, false); }
void __tsan_init() {}
void __tsan_func_entry(void*)
{
    sched::Thread* t = cur;
    if (!t || t->in_hook) return;
    t->in_hook = true;
    if (sched::script->points == sched::Functions) sched::point(t);
    t->in_hook = false;
}
void __tsan_func_exit(void*) {}

#define ATOMIC(n, T) \
    T __tsan_atomic##n##_load(const volatile T* a, int) { access((const void*)a, n / 8, false, true); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##n##_store(volatile T* a, T v, int) { access((const void*)a, n / 8, true, true); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_exchange(volatile T* a, T v, int) { access((const void*)a, n / 8, true, true); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_fetch_add(volatile T* a, T v, int) { access((const void*)a, n / 8, true, true); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_fetch_sub(volatile T* a, T v, int) { access((const void*)a, n / 8, true, true); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_fetch_and(volatile T* a, T v, int) { access((const void*)a, n / 8, true, true); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_fetch_or(volatile T* a, T v, int) { access((const void*)a, n / 8, true, true); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_fetch_xor(volatile T* a, T v, int) { access((const void*)a, n / 8, true, true); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##n##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { access((const void*)a, n / 8, true, true); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##n##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { access((const void*)a, n / 8, true, true); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}

void* __wrap_memcpy(void* d, const void* s, size_t n)
{
    access(s, n, false);
    access(d, n, true);
    return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n)
{
    access(s, n, false);
    access(d, n, true);
    return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n)
{
    access(d, n, true);
    return __real_memset(d, c, n);
}
int __wrap_memcmp(const void* a, const void* b, size_t n)
{
    access(a, n, false);
    access(b, n, false);
    return __real_memcmp(a, b, n);
}

// Things a thread can wait for.
static struct { uint64_t* guard; sched::Thread* by; } initialising[64];

int __wrap___cxa_guard_acquire(uint64_t* g)
{
    sched::Thread* t = cur;
    if (!t || sched::released) return __real___cxa_guard_acquire(g);
    access(g, 8, true, true);
    while (true) {
        if (__atomic_load_n(reinterpret_cast<char*>(g), __ATOMIC_ACQUIRE)) {
            access(g, 8, true, true);
            return 0;
        }
        bool other = false;
        for (auto& i : initialising) other |= i.guard == g && i.by != t;
        if (!other) break;
        sched::blocked(t);
    }
    for (auto& i : initialising)
        if (!i.guard) {
            i = {g, t};
            return 1;
        }
    return 1;
}
static bool ours(uint64_t* g)
{
    for (auto& i : initialising)
        if (i.guard == g) {
            i = {};
            return true;
        }
    return false;
}
void __wrap___cxa_guard_release(uint64_t* g)
{
    if (!ours(g)) return __real___cxa_guard_release(g);
    access(g, 8, true, true);
    __atomic_store_n(reinterpret_cast<char*>(g), 1, __ATOMIC_RELEASE);
}
void __wrap___cxa_guard_abort(uint64_t* g)
{
    if (!ours(g)) __real___cxa_guard_abort(g);
}
// Locks: tried, never waited for.
#define LOCK(name, T, attempt) \
    int __wrap_##name(T* m) \
    { \
        sched::Thread* t = cur; \
        if (!t || t->in_hook) return __real_##name(m); \
        access(m, sizeof *m, true, true); \
        int r; \
        while ((r = attempt(m)) == EBUSY) sched::blocked(t); \
        access(m, sizeof *m, true, true); \
        return r; \
    }
#define UNLOCK(name, T) \
    int __wrap_##name(T* m) \
    { \
        if (cur && !cur->in_hook) access(m, sizeof *m, true, true); \
        return __real_##name(m); \
    }
LOCK(pthread_mutex_lock, pthread_mutex_t, pthread_mutex_trylock)
UNLOCK(pthread_mutex_unlock, pthread_mutex_t)
LOCK(pthread_rwlock_rdlock, pthread_rwlock_t, pthread_rwlock_tryrdlock)
LOCK(pthread_rwlock_wrlock, pthread_rwlock_t, pthread_rwlock_trywrlock)
UNLOCK(pthread_rwlock_unlock, pthread_rwlock_t)

int __wrap_pthread_once(pthread_once_t* o, void (*fn)())
{
    sched::Thread* t = cur;
    if (!t || t->in_hook) return __real_pthread_once(o, fn);
    access(o, sizeof *o, true, true);
    static struct { pthread_once_t* o; sched::Thread* by; bool done; } known[64];
    if (*o == 2) return 0; // done before the threads started
    for (auto& k : known) {
        if (k.o && k.o != o) continue;
        if (!k.o) {
            k = {o, t, false};
            try {
                fn();
            } catch (...) {
                k = {};
                throw;
            }
            access(o, sizeof *o, true, true);
            k.done = true;
            return 0;
        }
        while (!k.done && k.by != t) sched::blocked(t);
        access(o, sizeof *o, true, true);
        return 0;
    }
    return __real_pthread_once(o, fn);
}
}

namespace sched {
bool available() { return true; }

namespace {
struct Job { Thread* t; const std::string* text; };

void* body(void* p)
{
    Job* j = static_cast<Job*>(p);
    Thread* t = j->t;
    pthread_attr_t attr;
    pthread_getattr_np(pthread_self(), &attr);
    void* low;
    size_t size;
    pthread_attr_getstack(&attr, &low, &size);
    pthread_attr_destroy(&attr);
    t->stack_low = reinterpret_cast<uintptr_t>(low);
    t->stack_high = t->stack_low + size; // includes the thread's own thread_local variables
    while (sem_wait(&t->go) && errno == EINTR) {}
    auto& r = out->result[t->index];
    std::string err;
    {
        std::vector<uint64_t> words;
        cur = t;
        bool ok = impl::raw(*j->text, words, err);
        cur = nullptr;
        r.ok = ok;
        r.n = uint32_t(std::min<size_t>(words.size(), sizeof r.words / 8));
        std::memcpy(r.words, words.data(), r.n * 8);
    }
    std::strncpy(r.err, err.c_str(), sizeof r.err - 1);
    t->done = true;
    progress.fetch_add(1);
    bool more = false;
    if (!released)
        for (int i = 1; i < count && !more; ++i) {
            Thread& o = threads[(t->index + i) % count];
            if (o.done) continue;
            more = true;
            running = o.index;
            sem_post(&o.go);
        }
    bool all = true;
    for (int i = 0; i < count; ++i) all &= threads[i].done;
    if (all) sem_post(&finished);
    return nullptr;
}

// Our own writable static memory does not count as the code's; it is told apart by what is recorded: only code
// compiled with instrumentation reports accesses.
void child(const std::vector<std::string>& texts, const Script& s)
{
    int null = open("/dev/null", O_WRONLY);
    dup2(null, 2);
    alarm(60);
    script = &s;
    count = int(texts.size());
    if (s.record)
        cells = static_cast<Cell*>(mmap(nullptr, CELLS * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    for (auto& w : s.before) { // in this thread, not recorded
        std::vector<uint64_t> words;
        std::string err;
        impl::raw(w, words, err);
    }
    sem_init(&finished, 0, 0);
    std::vector<Job> jobs(texts.size());
    std::vector<pthread_t> handle(texts.size());
    for (int i = 0; i < count; ++i) {
        threads[i] = {};
        threads[i].index = i;
        threads[i].clock[i] = 1;
        void* want = reinterpret_cast<void*>(0x600000000000 + uintptr_t(i) * 0x10000000000);
        threads[i].arena = static_cast<char*>(mmap(want, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0));
        sem_init(&threads[i].go, 0, 0);
        jobs[i] = {&threads[i], &texts[i]};
    }
    pthread_attr_t attr;
    pthread_attr_init(&attr);
    pthread_attr_setstacksize(&attr, 1 << 20);
    for (int i = 0; i < count; ++i) pthread_create(&handle[i], &attr, body, &jobs[i]);
    running = s.first;
    sem_post(&threads[s.first].go);
    uint64_t seen = 0;
    int still = 0;
    while (true) {
        timespec ts;
        clock_gettime(CLOCK_REALTIME, &ts);
        ts.tv_nsec += 200000000;
        if (ts.tv_nsec >= 1000000000) ts.tv_nsec -= 1000000000, ++ts.tv_sec;
        if (sem_timedwait(&finished, &ts) == 0) break;
        if (progress != seen) seen = progress, still = 0;
        else if (++still == 10 && !released) { // waits for something we do not know: let everybody run
            released = true;
            out->helped = 1;
            for (int i = 0; i < count; ++i) sem_post(&threads[i].go);
        }
    }
    out->points = point_no;
    out->accesses = access_no;
    out->overflow = cell_overflow;
    if (s.record)
        for (uint32_t h = 0; h < CELLS; ++h) {
            const Cell& c = cells[h];
            if (!c.addr) continue;
            uint16_t both = c.read | c.write;
            uint16_t by = c.sync ? c.sync | both : c.race ? both : 0;
            if ((by & (by - 1)) && out->nconf < 4096) out->conf[out->nconf++] = c.addr;
            bool own = false;
            uintptr_t a = c.addr << 3;
            for (int i = 0; i < count; ++i)
                own |= a - reinterpret_cast<uintptr_t>(threads[i].arena) < ARENA;
            if (own) continue;
            if ((c.write || c.sync) && out->nwritten < 4096) out->written[out->nwritten++] = c.addr;
            if (out->nused < 4096) out->used_[out->nused++] = c.addr;
        }
    out->done = 1;
    __real__exit(0);
}
} // namespace

Run execute(const std::vector<std::string>& texts, const Script& s)
{
    if (!out) {
        void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (p == MAP_FAILED) std::abort();
        out = static_cast<Shared*>(p);
    }
    static pid_t of = 0;
    if (of != getpid()) { // a shared page of our own
        void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (p == MAP_FAILED) std::abort();
        out = static_cast<Shared*>(p);
        of = getpid();
    }
    out->done = out->overflow = out->helped = 0;
    out->nconf = out->nwritten = out->nused = 0;
    for (auto& r : out->result) r.ok = r.n = 0, r.err[0] = 0;
    pid_t p = fork();
    if (!p) child(texts, s);
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    Run r;
    r.overflow = out->overflow;
    r.helped = out->helped;
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0 && out->done)) {
        r.died = true;
        r.hung = WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM;
        r.how = r.hung ? "does not terminate" : WIFSIGNALED(st) ? std::string("killed by signal ") + strsignal(WTERMSIG(st)) : "process ended with status " + std::to_string(WEXITSTATUS(st));
        return r;
    }
    r.points = out->points;
    r.accesses = out->accesses;
    r.conflicts.assign(out->conf, out->conf + out->nconf);
    r.shared_written.assign(out->written, out->written + out->nwritten);
    r.shared_used.assign(out->used_, out->used_ + out->nused);
    std::sort(r.conflicts.begin(), r.conflicts.end());
    for (size_t i = 0; i < texts.size(); ++i) {
        auto& x = out->result[i];
        r.words.emplace_back(x.words, x.words + x.n);
        r.error.push_back(x.ok ? "" : x.err[0] ? x.err : "failed");
    }
    return r;
}
} // namespace sched
