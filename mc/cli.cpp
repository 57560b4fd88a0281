#include "cli.hpp"
#include "impl.hpp"
#include "runner.hpp"
#include <cerrno>
#include <cstring>
#include <ctime>
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/ptrace.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" [[noreturn]] void __real__exit(int);

namespace cli {

std::string tool()
{
    const char* t = getenv("NXAS_CLI");
    return t ? t : "/repo/_build/nxas";
}

static std::string dir;
static pid_t owner = 0;

std::string scratch()
{
    if (owner != getpid()) {
        owner = getpid();
        const char* base = getenv("MC_SCRATCH");
        dir = std::string(base ? base : "/tmp") + "/cli-" + std::to_string(owner);
        mkdir(dir.c_str(), 0700);
    }
    return dir;
}

static void remove_tree(const std::string& path)
{
    if (DIR* d = opendir(path.c_str())) {
        while (dirent* e = readdir(d)) {
            std::string n = e->d_name;
            if (n == "." || n == "..") continue;
            std::string p = path + "/" + n;
            struct stat st;
            if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) remove_tree(p);
            else unlink(p.c_str());
        }
        closedir(d);
    }
    rmdir(path.c_str());
}

void remove_scratch()
{
    if (owner == getpid()) remove_tree(dir), owner = 0;
}

void write_file(const std::string& name, std::string_view content)
{
    std::string p = scratch() + "/" + name;
    int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
    while (fd >= 0 && !content.empty()) {
        ssize_t r = write(fd, content.data(), content.size());
        if (r <= 0) break;
        content.remove_prefix(size_t(r));
    }
    if (fd >= 0) close(fd);
}

std::optional<std::string> read_file(const std::string& name)
{
    std::string p = scratch() + "/" + name;
    int fd = open(p.c_str(), O_RDONLY | O_CLOEXEC);
    if (fd < 0) return {};
    std::string s;
    char b[65536];
    ssize_t r;
    while ((r = read(fd, b, sizeof b)) > 0) s.append(b, size_t(r));
    close(fd);
    if (r < 0) return {};
    return s;
}

static void walk(const std::string& path, const std::string& prefix, std::map<std::string, std::string>& m)
{
    DIR* d = opendir(path.c_str());
    if (!d) return;
    while (dirent* e = readdir(d)) {
        std::string n = e->d_name;
        if (n == "." || n == "..") continue;
        struct stat st;
        if (lstat((path + "/" + n).c_str(), &st)) continue;
        if (S_ISDIR(st.st_mode)) {
            m[prefix + n + "/"];
            walk(path + "/" + n, prefix + n + "/", m);
        } else if (S_ISREG(st.st_mode)) {
            m[prefix + n] = read_file(prefix + n).value_or("?");
        } else {
            m[prefix + n] = "special";
        }
    }
    closedir(d);
}

std::map<std::string, std::string> snapshot()
{
    std::map<std::string, std::string> m;
    walk(scratch(), "", m);
    return m;
}

std::string expected(std::string_view text, bool& ok)
{
    text = text.substr(0, text.find('\0'));
    const impl::Result& r = impl::assemble(text);
    ok = r.ok();
    std::string s;
    if (ok)
        for (uint64_t w : r.words)
            for (int i = 0; i < 8; ++i) s += char(w >> (8 * i));
    return s;
}

std::string Outcome::describe() const
{
    if (hang) return "does not terminate";
    std::string e;
    for (size_t i = 0; i < err.size(); ++i) {
        if (err[i] == '\33') {
            while (i < err.size() && err[i] != 'm') ++i;
            continue;
        }
        e += err[i] == '\n' ? ' ' : err[i];
    }
    return (exited ? "exit status " : "killed by signal ") + std::to_string(status) + (e.empty() ? ", no message" : ", message: " + e);
}

static double now()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return double(t.tv_sec) + double(t.tv_nsec) * 1e-9;
}

static int err_file()
{
    static int fd = -1;
    static pid_t of = 0;
    if (of != getpid()) fd = memfd_create("tool-stderr", MFD_CLOEXEC), of = getpid();
    if (ftruncate(fd, 0) == 0) lseek(fd, 0, SEEK_SET);
    return fd;
}

static std::string err_text(int fd)
{
    std::string s;
    char b[4096];
    lseek(fd, 0, SEEK_SET);
    ssize_t r;
    while ((r = read(fd, b, sizeof b)) > 0) s.append(b, size_t(r));
    return s;
}

constexpr unsigned LIMIT = 15;

static pid_t start(const std::vector<std::string>& args, int err, bool trace)
{
    std::string t = tool(), d = scratch();
    std::vector<char*> argv{const_cast<char*>("nxas")};
    for (auto& a : args) argv.push_back(const_cast<char*>(a.c_str()));
    argv.push_back(nullptr);
    static char lang[] = "LC_ALL=C";
    char* envp[] = {lang, nullptr};
    pid_t p = fork();
    if (p) return p;
    if (chdir(d.c_str())) __real__exit(120);
    int null = open("/dev/null", O_RDWR);
    dup2(null, 0);
    dup2(null, 1);
    dup2(err, 2);
    if (null > 2) close(null);
    signal(SIGPIPE, SIG_DFL);
    alarm(LIMIT);
    if (trace) {
        ptrace(PTRACE_TRACEME, 0, 0, 0);
        raise(SIGSTOP);
    }
    execve(t.c_str(), argv.data(), envp);
    __real__exit(121);
}

Outcome run(const std::vector<std::string>& args)
{
    int err = err_file();
    Outcome o;
    pid_t p = start(args, err, false);
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    o.hang = WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM;
    o.exited = WIFEXITED(st);
    o.status = o.exited ? WEXITSTATUS(st) : WTERMSIG(st);
    o.err = err_text(err);
    return o;
}

// ------------------------------------------------------------------------------------------------ faults

const char* name(Fault f)
{
    static const char* const n[] = {"-", "EIO", "EINTR", "EACCES", "EMFILE", "ENOSPC", "ENOENT", "EISDIR", "EAGAIN", "1 byte only", "half only", "data lost+EIO", "data lost+ENOSPC", "EIO from now on", "ENOSPC from now on", "half, then ENOSPC from now on"};
    return n[f];
}

namespace {
enum Class { Other, Open, Read, Write, Close, Meta, Path };

struct Tracer {
    pid_t pid;
    std::string input;                     // its path as given
    std::map<int, bool> fds;               // tracked descriptors; true: not the input
    const std::vector<Fault>& script;
    std::vector<Step>& steps;
    std::map<std::pair<int, bool>, int> sticky; // class, output -> errno

    std::string peek(uint64_t a)
    {
        std::string s;
        char b[256];
        while (s.size() < 4096) {
            iovec l{b, sizeof b - (a & 255) % sizeof b}, r{reinterpret_cast<void*>(a), l.iov_len};
            ssize_t n = process_vm_readv(pid, &l, 1, &r, 1, 0);
            if (n <= 0) break;
            size_t z = strnlen(b, size_t(n));
            s.append(b, z);
            if (z < size_t(n)) break;
            a += uint64_t(n);
        }
        return s;
    }
};

const char* path_call(uint64_t nr, int& arg) // calls that name a path
{
    arg = 0;
    switch (nr) {
    case SYS_open: return "open";
    case SYS_creat: return "creat";
    case SYS_stat: return "stat";
    case SYS_lstat: return "lstat";
    case SYS_access: return "access";
    case SYS_truncate: return "truncate";
    case SYS_rename: return "rename";
    case SYS_unlink: return "unlink";
    case SYS_link: return "link";
    case SYS_chmod: return "chmod";
    case SYS_statfs: return "statfs";
    case SYS_mkdir: return "mkdir";
    }
    arg = 1;
    switch (nr) {
    case SYS_openat: return "openat";
#ifdef SYS_openat2
    case SYS_openat2: return "openat2";
#endif
    case SYS_newfstatat: return "newfstatat";
    case SYS_statx: return "statx";
    case SYS_faccessat: return "faccessat";
    case SYS_renameat: return "renameat";
    case SYS_renameat2: return "renameat2";
    case SYS_unlinkat: return "unlinkat";
    case SYS_linkat: return "linkat";
    case SYS_fchmodat: return "fchmodat";
    }
    return nullptr;
}

const char* fd_call(uint64_t nr, Class& c)
{
    switch (nr) {
    case SYS_read: c = Read; return "read";
    case SYS_readv: c = Read; return "readv";
    case SYS_pread64: c = Read; return "pread";
    case SYS_preadv: c = Read; return "preadv";
    case SYS_write: c = Write; return "write";
    case SYS_writev: c = Write; return "writev";
    case SYS_pwrite64: c = Write; return "pwrite";
    case SYS_pwritev: c = Write; return "pwritev";
    case SYS_close: c = Close; return "close";
    case SYS_fsync: c = Close; return "fsync";
    case SYS_fdatasync: c = Close; return "fdatasync";
    case SYS_lseek: c = Meta; return "lseek";
    case SYS_fstat: c = Meta; return "fstat";
    case SYS_newfstatat: c = Meta; return "fstatat";
    case SYS_ftruncate: c = Meta; return "ftruncate";
    case SYS_fallocate: c = Meta; return "fallocate";
    case SYS_ioctl: c = Meta; return "ioctl";
    case SYS_fcntl: c = Meta; return "fcntl";
    case SYS_flock: c = Meta; return "flock";
    case SYS_dup: c = Meta; return "dup";
    case SYS_dup2: c = Meta; return "dup2";
    case SYS_fadvise64: c = Meta; return "fadvise";
    }
    return nullptr;
}

int error_of(Fault f)
{
    switch (f) {
    case Err_EIO: case Lost_EIO: case Sticky_EIO: return EIO;
    case Err_EINTR: return EINTR;
    case Err_EACCES: return EACCES;
    case Err_EMFILE: return EMFILE;
    case Err_ENOSPC: case Lost_ENOSPC: case Sticky_ENOSPC: return ENOSPC;
    case Err_ENOENT: return ENOENT;
    case Err_EISDIR: return EISDIR;
    case Err_EAGAIN: return EAGAIN;
    default: return 0;
    }
}
} // namespace

Outcome run_faulty(const std::vector<std::string>& args, const std::vector<Fault>& script, const std::string& input, std::vector<Step>& steps)
{
    steps.clear();
    int err = err_file();
    Outcome o;
    pid_t p = start(args, err, true);
    int st = 0;
    waitpid(p, &st, 0);
    if (!WIFSTOPPED(st)) {
        o.exited = true, o.status = 122, o.err = "cannot trace";
        return o;
    }
    ptrace(PTRACE_SETOPTIONS, p, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL | PTRACE_O_TRACEEXEC);
    Tracer t{p, input, {}, script, steps, {}};
    const std::string home = scratch() + "/";
    bool entry = true, execd = false;
    // what to do at the end of the current call
    user_regs_struct saved{};
    int inject = 0;      // errno to return
    bool restore = false;
    bool opening = false, opening_output = false, dupping = false, dup_output = false;
    int sig = 0;
    double t0 = now();
    uint64_t stops = 0;
    while (true) {
        ptrace(PTRACE_SYSCALL, p, 0, sig);
        sig = 0;
        pid_t r;
        do r = waitpid(p, &st, 0);
        while (r < 0 && errno == EINTR);
        if (r < 0 || !WIFSTOPPED(st)) break;
        if ((++stops & 255) == 0 && now() - t0 > LIMIT) {
            kill(p, SIGKILL);
            waitpid(p, &st, 0);
            o.hang = true;
            break;
        }
        if (st >> 8 == (SIGTRAP | (PTRACE_EVENT_EXEC << 8))) {
            execd = true;
            continue;
        }
        if (WSTOPSIG(st) != (SIGTRAP | 0x80)) {
            sig = WSTOPSIG(st);
            if (sig == SIGTRAP || sig == SIGSTOP) sig = 0;
            continue;
        }
        user_regs_struct regs;
        ptrace(PTRACE_GETREGS, p, 0, &regs);
        if (!entry) {
            entry = true;
            if (restore) {
                int64_t ret = int64_t(regs.rax);
                user_regs_struct back = saved;
                back.rax = inject ? uint64_t(int64_t(-inject)) : uint64_t(ret);
                back.rcx = regs.rcx;
                back.r11 = regs.r11;
                back.rip = regs.rip;
                ptrace(PTRACE_SETREGS, p, 0, &back);
                regs = back;
            }
            if (opening && int64_t(regs.rax) >= 0) t.fds[int(regs.rax)] = opening_output;
            if (dupping && int64_t(regs.rax) >= 0) t.fds[int(regs.rax)] = dup_output;
            continue;
        }
        entry = false;
        restore = opening = dupping = false;
        inject = 0;
        if (!execd) continue;
        uint64_t nr = regs.orig_rax;
        Step s;
        Class c = Other;
        int arg = 0;
        int fd = -1;
        if (const char* n = path_call(nr, arg)) {
            std::string path = t.peek(arg ? regs.rsi : regs.rdi);
            bool relevant = !path.empty() && (path[0] != '/' || path.compare(0, home.size(), home) == 0);
            if (relevant) {
                s.call = std::string(n) + " " + path;
                s.output = path != input;
                bool is_open = std::strncmp(n, "open", 4) == 0 || !std::strcmp(n, "creat");
                c = is_open ? Open : Path;
                if (is_open) opening = true, opening_output = s.output;
            }
        }
        if (c == Other)
            if (const char* n = fd_call(nr, c)) {
                auto it = t.fds.find(int(regs.rdi));
                if (it == t.fds.end()) {
                    c = Other;
                } else {
                    fd = it->first;
                    s.output = it->second;
                    s.call = std::string(n) + (s.output ? " output" : " input");
                    if (nr == SYS_close) t.fds.erase(it);
                    if (nr == SYS_dup || nr == SYS_dup2 || (nr == SYS_fcntl && (regs.rsi == F_DUPFD || regs.rsi == F_DUPFD_CLOEXEC)))
                        dupping = true, dup_output = s.output;
                }
            }
        if (c == Other) continue;
        const bool vec = nr == SYS_readv || nr == SYS_writev || nr == SYS_preadv || nr == SYS_pwritev;
        iovec iov[2]{};
        uint64_t size = 0;
        if (c == Read || c == Write) {
            if (vec) {
                iovec l{iov, sizeof(iovec) * std::min<uint64_t>(2, regs.rdx)}, rm{reinterpret_cast<void*>(regs.rsi), l.iov_len};
                if (process_vm_readv(p, &l, 1, &rm, 1, 0) <= 0) iov[0].iov_len = 0;
                for (auto& v : iov) size += v.iov_len;
            } else {
                size = regs.rdx;
            }
        }
        switch (c) {
        case Open:
            s.possible = {Err_EACCES, Err_EMFILE, Err_EINTR, Err_EIO, s.output ? Err_ENOSPC : Err_ENOENT};
            break;
        case Read:
            s.possible = {Err_EIO, Err_EINTR, Err_EISDIR, Err_EAGAIN, Sticky_EIO};
            if (size > 1) s.possible.push_back(Short1);
            if (size > 3) s.possible.push_back(ShortHalf);
            break;
        case Write:
            s.possible = {Err_EIO, Err_EINTR, Err_ENOSPC, Err_EAGAIN, Sticky_ENOSPC};
            if (size > 1) s.possible.push_back(Short1);
            if (size > 3) s.possible.push_back(ShortHalf), s.possible.push_back(ShortThenFull);
            break;
        case Close:
            if (s.output) s.possible = {Lost_EIO, Lost_ENOSPC, Err_EINTR};
            else s.possible = {Err_EIO, Err_EINTR};
            break;
        default:
            s.possible = {Err_EIO, Err_EACCES};
            break;
        }
        auto stuck = t.sticky.find({c, s.output});
        size_t k = steps.size();
        if (stuck != t.sticky.end()) s.possible.clear();
        else if (k < script.size()) s.taken = script[k];
        saved = regs;
        auto fail = [&](int e, bool perform) {
            inject = e;
            restore = true;
            saved = regs;
            if (!perform) {
                regs.orig_rax = ~0ULL;
                ptrace(PTRACE_SETREGS, p, 0, &regs);
            }
        };
        if (stuck != t.sticky.end()) {
            s.call += " (fails too)";
            fail(stuck->second, false);
        } else {
            switch (s.taken) {
            case None: break;
            case Sticky_EIO:
            case Sticky_ENOSPC: t.sticky[{c, s.output}] = error_of(s.taken); [[fallthrough]];
            default: fail(error_of(s.taken), nr == SYS_close); break;
            case Lost_EIO:
            case Lost_ENOSPC: {
                std::string link = "/proc/" + std::to_string(p) + "/fd/" + std::to_string(fd);
                int f = open(link.c_str(), O_WRONLY | O_CLOEXEC);
                if (f >= 0) {
                    if (ftruncate(f, 0)) {}
                    close(f);
                }
                fail(error_of(s.taken), nr == SYS_close);
                break;
            }
            case ShortThenFull: t.sticky[{c, s.output}] = ENOSPC; [[fallthrough]];
            case Short1:
            case ShortHalf: {
                uint64_t n = s.taken == Short1 ? 1 : size / 2;
                restore = true;
                saved = regs;
                if (vec) {
                    iovec v = iov[0].iov_len ? iov[0] : iov[1];
                    regs.orig_rax = nr == SYS_readv ? SYS_read : nr == SYS_writev ? SYS_write : nr == SYS_preadv ? SYS_pread64 : SYS_pwrite64;
                    regs.rsi = reinterpret_cast<uint64_t>(v.iov_base);
                    regs.rdx = std::min<uint64_t>(n, v.iov_len);
                } else {
                    regs.rdx = n;
                }
                ptrace(PTRACE_SETREGS, p, 0, &regs);
                break;
            }
            }
        }
        steps.push_back(std::move(s));
        if (steps.size() > 20000) { // keeps on trying forever
            kill(p, SIGKILL);
            waitpid(p, &st, 0);
            o.hang = true;
            break;
        }
    }
    o.exited = WIFEXITED(st);
    o.status = o.exited ? WEXITSTATUS(st) : WTERMSIG(st);
    o.err = err_text(err);
    return o;
}

} // namespace cli
