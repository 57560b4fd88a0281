#include "impl.hpp"
#include <nxas.h>
#include <csetjmp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <ctime>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#define MC_ASAN 1
#endif

namespace {
struct Exit {};

thread_local bool active = false;
thread_local bool exit_called = false;
thread_local int exit_status = 0;
thread_local const char* crash = nullptr;
thread_local std::jmp_buf escape;
uint64_t leak_count = 0;

std::string captured;
int memfd = -1, real_stderr = 2;
FILE* capture_file = nullptr;
FILE* real_stderr_file = nullptr;

ssize_t cookie_write(void*, const char* buf, size_t n)
{
    captured.append(buf, n);
    return ssize_t(n);
}

[[noreturn]] void crashed(const char* how)
{
    crash = how;
    ++leak_count;
    std::longjmp(escape, 1);
}
} // namespace

extern "C" {
[[noreturn]] void __real_exit(int);
[[noreturn]] void __real__exit(int);
[[noreturn]] void __real__Exit(int);
[[noreturn]] void __real_quick_exit(int);
[[noreturn]] void __real_abort();
[[noreturn]] void __real___assert_fail(const char*, const char*, unsigned, const char*);

static void leave(int status)
{
    if (!exit_called) exit_status = status;
    exit_called = true;
}

[[noreturn]] void __wrap_exit(int status)
{
    if (!active) __real_exit(status);
    leave(status);
    throw Exit{};
}
[[noreturn]] void __wrap__exit(int status)
{
    if (!active) __real__exit(status);
    leave(status);
    throw Exit{};
}
[[noreturn]] void __wrap__Exit(int status)
{
    if (!active) __real__Exit(status);
    leave(status);
    throw Exit{};
}
[[noreturn]] void __wrap_quick_exit(int status)
{
    if (!active) __real_quick_exit(status);
    leave(status);
    throw Exit{};
}
[[noreturn]] void __wrap_abort()
{
    if (!active) __real_abort();
    crashed("abort()");
}
[[noreturn]] void __wrap___assert_fail(const char* e, const char* file, unsigned line, const char* fn)
{
    if (!active) __real___assert_fail(e, file, line, fn);
    static char buf[512];
    std::snprintf(buf, sizeof buf, "assertion failed: %s (%s:%u)", e, file, line);
    crashed(buf);
}
}

// What the code may ask the world for: the answers of world n (MC_WORLD), while the code runs.
static int world()
{
    static const int n = [] {
        const char* w = nullptr;
        for (char** e = environ; *e; ++e)
            if (!std::strncmp(*e, "MC_WORLD=", 9)) w = *e + 9;
        return w ? std::atoi(w) : -1;
    }();
    return active ? n : -1;
}
static const char* const world_text[] = {"1", "0", "", "true", "/nonexistent"};
static const long long world_time[] = {0, 1, 2147483647, 951782400, 1700000001};
extern "C" {
char* __real_getenv(const char*);
char* __real_secure_getenv(const char*);
time_t __real_time(time_t*);
clock_t __real_clock();
int __real_clock_gettime(clockid_t, timespec*);
int __real_gettimeofday(timeval*, void*);
int __real_rand();
long __real_random();
pid_t __real_getpid();
int __real_isatty(int);
long long __real__ZNSt6chrono3_V212system_clock3nowEv();
long long __real__ZNSt6chrono3_V212steady_clock3nowEv();

char* __wrap_getenv(const char* n) { return world() < 0 ? __real_getenv(n) : const_cast<char*>(world_text[world()]); }
char* __wrap_secure_getenv(const char* n) { return world() < 0 ? __real_secure_getenv(n) : const_cast<char*>(world_text[world()]); }
time_t __wrap_time(time_t* t)
{
    if (world() < 0) return __real_time(t);
    if (t) *t = world_time[world()];
    return world_time[world()];
}
clock_t __wrap_clock() { return world() < 0 ? __real_clock() : clock_t(world_time[world()]); }
int __wrap_clock_gettime(clockid_t c, timespec* t)
{
    if (world() < 0) return __real_clock_gettime(c, t);
    *t = {time_t(world_time[world()]), 0};
    return 0;
}
int __wrap_gettimeofday(timeval* t, void* z)
{
    if (world() < 0) return __real_gettimeofday(t, z);
    *t = {time_t(world_time[world()]), 0};
    return 0;
}
int __wrap_rand() { return world() < 0 ? __real_rand() : int(world_time[world()]); }
long __wrap_random() { return world() < 0 ? __real_random() : long(world_time[world()]); }
pid_t __wrap_getpid() { return world() < 0 ? __real_getpid() : pid_t(world_time[world()] & 0x3fffff); }
int __wrap_isatty(int fd) { return world() < 0 ? __real_isatty(fd) : world() % 2; }
long long __wrap__ZNSt6chrono3_V212system_clock3nowEv() { return world() < 0 ? __real__ZNSt6chrono3_V212system_clock3nowEv() : world_time[world()] * 1000000000; }
long long __wrap__ZNSt6chrono3_V212steady_clock3nowEv() { return world() < 0 ? __real__ZNSt6chrono3_V212steady_clock3nowEv() : world_time[world()] * 1000000000; }
}

namespace impl {

static void on_terminate()
{
    if (!active) __real_abort();
    if (exit_called) { // unwinding met a frame it may not pass
        ++leak_count;
        std::longjmp(escape, 2);
    }
    crashed("std::terminate (uncaught exception)");
}

void init()
{
    if (capture_file) return;
    std::set_terminate(on_terminate);
    cookie_io_functions_t io{};
    io.write = cookie_write;
    capture_file = fopencookie(nullptr, "w", io);
    static char buffer[1 << 16];
    setvbuf(capture_file, buffer, _IOFBF, sizeof buffer);
    captured.reserve(1 << 12);
    memfd = memfd_create("stderr", 0);
    real_stderr = dup(2);
    real_stderr_file = stderr;
}

uint64_t leaks() { return leak_count; }

const Result& assemble(std::string_view text, const char* filename)
{
    static Result r;
    init();
    captured.clear();
    r.words.clear();
    r.err.clear();
    r.what.clear();
    r.status = 0;
    std::string code;
#ifdef MC_ASAN
    code.reserve(text.size() + 40);
    code.assign(text);
    __asan_poison_memory_region(code.data() + code.size() + 1, code.capacity() - code.size());
    std::string name_copy;
    name_copy.reserve(64);
    name_copy = filename;
    __asan_poison_memory_region(name_copy.data() + name_copy.size() + 1, name_copy.capacity() - name_copy.size());
    filename = name_copy.c_str();
#else
    code.assign(text);
#endif
    dup2(memfd, 2);
    stderr = capture_file;
    exit_called = false;
    crash = nullptr;
    active = true;
    int jumped = setjmp(escape);
    if (!jumped) {
        try {
            r.words = nxas::assemble(code, filename);
        } catch (const Exit&) {
        } catch (const std::exception& e) {
            static char buf[256];
            std::snprintf(buf, sizeof buf, "uncaught exception: %s", e.what());
            crash = buf;
        } catch (...) {
            crash = "uncaught exception";
        }
    }
    active = false;
    std::fflush(capture_file);
    stderr = real_stderr_file;
#ifdef MC_ASAN
    __asan_unpoison_memory_region(code.data(), code.capacity() + 1);
    __asan_unpoison_memory_region(name_copy.data(), name_copy.capacity() + 1);
#endif
    dup2(real_stderr, 2);
    if (captured.empty() && (exit_called || crash)) {
        off_t n = lseek(memfd, 0, SEEK_CUR);
        if (n > 0) {
            captured.resize(size_t(n));
            if (pread(memfd, captured.data(), size_t(n), 0) < 0) captured.clear();
            if (ftruncate(memfd, 0) == 0) lseek(memfd, 0, SEEK_SET);
        }
    }
    r.err = captured;
    if (crash) {
        r.kind = Result::Crash;
        r.what = crash;
        r.words.clear();
    } else if (exit_called) {
        r.kind = Result::Reject;
        r.status = exit_status;
        r.words.clear();
    } else {
        r.kind = Result::Ok;
    }
    return r;
}

bool raw(const std::string& text, std::vector<uint64_t>& words, std::string& error)
{
    exit_called = false;
    crash = nullptr;
    active = true;
    if (!setjmp(escape)) {
        try {
            words = nxas::assemble(text, "file.sass");
        } catch (const Exit&) {
        } catch (...) {
            crash = "uncaught exception";
        }
    }
    active = false;
    if (crash) error = crash;
    else if (exit_called) error = "exit status " + std::to_string(exit_status);
    return !crash && !exit_called;
}

std::string describe(const Result& r)
{
    if (r.kind == Result::Crash) return "crashes: " + r.what;
    if (r.kind == Result::Reject) {
        std::string e;
        for (size_t i = 0; i < r.err.size(); ++i) {
            if (r.err[i] == '\33') {
                while (i < r.err.size() && r.err[i] != 'm') ++i;
                continue;
            }
            e += r.err[i] == '\n' ? ' ' : r.err[i];
        }
        return "exit status " + std::to_string(r.status) + (e.empty() ? ", no message" : ": " + e);
    }
    std::string s = std::to_string(r.words.size()) + " words:";
    for (size_t i = 0; i < r.words.size() && i < 12; ++i) {
        char b[24];
        std::snprintf(b, sizeof b, " %016llx", (unsigned long long)r.words[i]);
        s += b;
    }
    if (r.words.size() > 12) s += " ...";
    return s;
}

} // namespace impl
