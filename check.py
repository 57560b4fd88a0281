#!/usr/bin/env python3
"""Builds /repo's current tree and the explorer, runs the check of one property, writes its evidence.

  check.py <property> [quick|thorough]     exit 0: held on everything explored; 1: VIOLATION; 2: could not decide
  check.py setup                           builds everything once
  check.py replay <file>                   shows what the reference model and the code say about a recorded violation
"""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_DEV_REPO", "/repo")  # another tree only for developing the checks
BUILD = os.path.join(VERIF, "build")
MC = os.path.join(VERIF, "mc")
WRAP = "-Wl," + ",".join("--wrap=" + s for s in ("exit", "_exit", "_Exit", "quick_exit", "abort", "__assert_fail",
    "getenv", "secure_getenv", "time", "clock", "clock_gettime", "gettimeofday", "rand", "random", "getpid", "isatty", "_ZNSt6chrono3_V212system_clock3nowEv", "_ZNSt6chrono3_V212steady_clock3nowEv"))
ENV = dict(os.environ, PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", LC_ALL="C.UTF-8", LANG="C.UTF-8")
for k in ("CXXFLAGS", "CFLAGS", "LDFLAGS", "CXX", "CC", "LD_PRELOAD"):
    ENV.pop(k, None)

SAN = "-O1 -g -fsanitize=address,undefined,float-cast-overflow -fno-sanitize-recover=all -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS"
FLAVOURS = {  # name: (compiler, flags of /repo's code, flags of the explorer, link flags)
    "plain": ("g++", "-O2", "-O2", ""),
    "asan": ("g++", SAN, "-O1 -g -fsanitize=address,undefined -fno-sanitize-recover=all", "-fsanitize=address,undefined"),
    # the same code, with uninitialised memory filled in two different ways
    "fill1": ("g++", "-O0 -g -ftrivial-auto-var-init=pattern", "-O2", ""),
    "fill2": ("g++", "-O0 -g -ftrivial-auto-var-init=zero", "-O2", ""),
    # instrumented for the thread sanitizer, but linked with mc/sched.cpp in place of its library
    "steps": ("g++", "-O1 -g -fsanitize=thread", "-O2",
              "-Wl," + ",".join("--wrap=" + s for s in ("memcpy", "memmove", "memset", "memcmp", "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort", "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_rwlock_unlock", "pthread_once"))),
}

class Error(Exception):
    pass

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, **kw)
    if r.returncode:
        raise Error("%s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-6000:]))
    return r.stdout

def tree_hash(top, skip=()):
    h = hashlib.sha256()
    for d, dirs, files in os.walk(top):
        dirs[:] = sorted(x for x in dirs if not (x in (".git", "__pycache__") or (d == top and x in skip)))
        for f in sorted(files):
            p = os.path.join(d, f)
            if os.path.islink(p) or not os.path.isfile(p):
                continue
            h.update(os.path.relpath(p, top).encode() + b"\0")
            with open(p, "rb") as fp:
                h.update(hashlib.sha256(fp.read()).digest())
    return h.hexdigest()[:16]

def prune(prefix, keep):
    """Removes old builds of a flavour."""
    old = sorted((os.path.join(BUILD, d) for d in os.listdir(BUILD) if d.startswith(prefix) and os.path.join(BUILD, d) != keep),
                 key=os.path.getmtime)
    for d in old[:-2]:
        shutil.rmtree(d, ignore_errors=True)

def build_repo(flavour, targets):
    """Builds targets of /repo's own CMake project; returns the build directory."""
    cxx, flags = FLAVOURS[flavour][:2]
    out = os.path.join(BUILD, "repo-%s-%s" % (flavour, tree_hash(REPO, ("_build", "build"))))
    if not os.path.exists(os.path.join(out, "build.ninja")):
        shutil.rmtree(out, ignore_errors=True)
        run(["cmake", "-S", REPO, "-B", out, "-G", "Ninja", "-DCMAKE_CXX_COMPILER=" + cxx, "-DCMAKE_BUILD_TYPE=None",
             "-DCMAKE_CXX_FLAGS=" + flags])
    os.utime(out)
    run(["ninja", "-C", out] + list(targets))
    prune("repo-%s-" % flavour, out)
    return out

def find_file(top, name):
    for d, _, files in os.walk(top):
        if name in files:
            return os.path.join(d, name)
    raise Error("%s not found below %s" % (name, top))

def build_objects(flavour, sources):
    """Compiles the explorer; returns the object files."""
    cxx, _, flags, _ = FLAVOURS[flavour]
    h = hashlib.sha256((tree_hash(MC) + flags).encode()).hexdigest()[:16]
    out = os.path.join(BUILD, "mc-%s-%s" % (flavour, h))
    os.makedirs(out, exist_ok=True)
    isa = os.path.join(out, "isa_text.cpp")
    if not os.path.exists(isa):
        with open(os.path.join(MC, "isa.txt")) as f:
            text = f.read()
        with open(isa + ".tmp", "w") as f:
            f.write("namespace model { extern const char* const isa_text;\nconst char* const isa_text =\n")
            for line in text.split("\n"):
                f.write('"%s\\n"\n' % line.replace("\\", "\\\\").replace('"', '\\"'))
            f.write(";\n}\n")
        os.rename(isa + ".tmp", isa)
    jobs = []
    for s in sources:
        src = isa if s == "isa_text" else os.path.join(MC, s + ".cpp")
        obj = os.path.join(out, s + ".o")
        jobs.append((src, obj))
    def compile(job):
        src, obj = job
        if not os.path.exists(obj):
            run([cxx, "-std=c++20", "-Wall"] + flags.split() + ["-I" + REPO + "/include", "-c", src, "-o", obj + ".tmp"])
            os.rename(obj + ".tmp", obj)
    return out, jobs, compile

CORE = ["isa_text", "model", "gen", "impl", "runner", "common", "edits", "cli", "main"]
CHECKS = ["c01", "c02", "c03", "c04", "c05", "c06", "c07", "c08", "c09", "c10", "c11", "c12", "c13", "c14", "c15", "c16", "c17", "c18"]

def build(flavour, name, sources, cli=False):
    """Builds /repo and the explorer at the same time and links them."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock-" + flavour), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        out, jobs, compile = build_objects(flavour, sources + ["sched" if flavour == "steps" else "sched_none"])
        with ThreadPoolExecutor(8) as ex:
            lib = ex.submit(build_repo, flavour, ["nxas_lib"] + (["nxas"] if cli else []))
            for f in [ex.submit(compile, j) for j in jobs]:
                f.result()
            repo = lib.result()
        exe = os.path.join(repo, name)
        run([FLAVOURS[flavour][0]] + [o for _, o in jobs] + [find_file(repo, "libnxas_lib.a"), "-lpthread", WRAP] +
            FLAVOURS[flavour][3].split() + ["-o", exe])
        prune("mc-%s-" % flavour, out)
        return exe, repo

def explore(exe, args, result, timeout, env=None):
    e = dict(ENV)
    e.update(env or {})
    if os.path.exists(result):
        os.unlink(result)
    r = subprocess.run([exe] + args + [result], env=e, timeout=timeout)
    if r.returncode not in (0, 1) or not os.path.exists(result):
        raise Error("%s ended with status %d" % (" ".join([exe] + args), r.returncode))
    with open(result) as f:
        return json.load(f)

# ---------------------------------------------------------------------------------------------- properties

PROPS = {}

def prop(id, technique_note, assumptions, runner):
    PROPS[id] = (technique_note, assumptions, runner)

def mc(flavour="plain", env=None, cli=False):
    def go(id, tier, scratch):
        exe, repo = build(flavour, "mc", CORE + CHECKS, cli)
        return explore(exe, [id, tier], os.path.join(scratch, "result.json"), 850 if tier == "quick" else 6 * 3600,
                       env(repo, scratch) if env else None)
    return go

MODEL = "the reference model (mc/model.cpp, mc/isa.txt) states what the instruction set and the source language are; it reproduces all 1085 words of the repository's tests"

for id, what in {
    "C01": "all instruction texts within the bounds, each judged against the reference model's word",
    "C02": "all values of every integer operand within the bounds, in all spellings, judged against the reference model",
    "C03": "all stored values of every floating-point operand within the bounds, with their rounding boundaries, judged against the reference model",
    "C04": "all one-token edits of every form's texts; those that are not legal must be rejected",
    "C05": "all positions of branches and labels within the bounds, judged against the address arithmetic of the reference model",
    "C06": "all program lengths within the bound, all slots, judged against the layout of the reference model",
    "C07": "all annotation and reuse combinations, judged against the 21-bit entry of the reference model",
    "C08": "all sequences of instructions within the bounds, each member compared with the instruction assembled alone",
    "C09": "all layouts within the bounds, compared with the canonical layout",
    "C10": "all containers within the bounds, judged against the container of the reference model",
    "C11": "all directive sequences within the bounds, judged against the option state of the reference model",
    "C13": "all one-token edits and layouts within the bounds; the diagnostic's position must be one the reference model names",
    "C16": "all texts of the tree, as one map from words to meanings that has to be injective",
    "C17": "all short words in every register and predicate position, judged against the architectural name set",
}.items():
    prop(id, what, [MODEL], mc())

SANENV = lambda repo, scratch: {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=86:allocator_may_return_null=1:max_malloc_fill_size=4096:detect_stack_use_after_return=1:log_path=%s/asan" % scratch,
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=87:log_path=%s/ubsan" % scratch}

def uninitialised(id, tier, scratch):
    """Compares the results of two builds that differ only in what uninitialised memory holds."""
    flav = {"fill1": "85", "fill2": "170"}
    exes = {f: build(f, "mc", CORE + CHECKS)[0] for f in flav}
    def env(f):
        return dict(ENV, GLIBC_TUNABLES="glibc.malloc.perturb=" + flav[f])
    out = {f: os.path.join(scratch, f) for f in flav}
    procs = [subprocess.Popen([exes[f], "dump", tier, out[f]], env=env(f)) for f in flav]
    for p in procs:
        if p.wait(timeout=800 if tier == "quick" else 3600):
            raise Error("mc dump ended with status %d" % p.returncode)
    a, b = (open(out[f], "rb").read() for f in flav)
    n, bad = len(a) // 8, []
    for i in range(n):
        if a[8 * i:8 * i + 8] != b[8 * i:8 * i + 8]:
            text = os.path.join(scratch, "text")
            subprocess.run([exes["fill1"], "dump", tier, text, str(i)], env=ENV)
            said = [subprocess.run([exes[f], "show", text], env=env(f), stdout=subprocess.PIPE).stdout.decode(errors="replace").split("code:")[-1] for f in flav]
            if said[0] != said[1]:  # fresh processes disagree as well
                bad.append({"kind": "uninitialised value", "text": open(text, "rb").read().decode("latin-1"),
                            "detail": "the result depends on uninitialised memory: %s / %s" % tuple(x.strip() for x in said)})
                if len(bad) == 5:
                    break
    return n, bad

def c12(id, tier, scratch):
    res = mc("asan", SANENV)(id, tier, scratch)
    if not res["violations"] and not res["cut"]:
        n, bad = uninitialised(id, tier, scratch)
        res["violations"] += bad
        res["states"] += n
        res["traces"] += 2 * n
        res["bounds"].append("%d texts run in two builds that fill uninitialised stack and heap memory differently, with the same results" % n)
    return res

prop("C12", "all texts within the bounds, run under AddressSanitizer, UndefinedBehaviorSanitizer and library assertions; each must end with words or with exit status 1 and a message",
     ["a defect that only an uninstrumented build shows, or a longer text, is outside the bounds"], c12)

def make_locale(name, top):
    os.makedirs(top, exist_ok=True)
    language, charset = name.split(".")
    try:  # warnings make it end with status 1
        subprocess.run(["localedef", "-i", language, "-f", charset, os.path.join(top, name)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=ENV)
    except OSError:
        return False
    return os.path.exists(os.path.join(top, name, "LC_NUMERIC"))

def c15(id, tier, scratch):
    # histories and environments in the plain build, interleavings in the instrumented one
    res = mc("plain")(id, tier, scratch)
    exe, _ = build("plain", "mc", CORE + CHECKS)
    envs = [{}, {"LC_ALL": "de_DE.UTF-8", "LANG": "de_DE.UTF-8", "TZ": "Asia/Tokyo", "HOME": "/nonexistent"},
            {"LANGUAGE": "C", "PADDING": "x" * 100000, "GLIBC_TUNABLES": "glibc.malloc.perturb=85"}, {"NXAS": "1", "DEBUG": "1", "VERBOSE": "1"}]
    # other answers to what the code may ask for: variables, time, random numbers, process number, terminal
    envs += [{"MC_WORLD": str(i)} for i in range(5)]
    # programs that have chosen a locale: other decimal separator, other digits, other letter cases
    locales = [l for l in ("de_DE.UTF-8", "fa_IR.UTF-8", "tr_TR.UTF-8", "de_DE.ISO-8859-1") if make_locale(l, os.path.join(scratch, "locale"))]
    envs += [{"LOCPATH": os.path.join(scratch, "locale"), "LC_ALL": l, "MC_LOCALE": "1"} for l in locales]
    dumps, procs = [], []
    for i, e in enumerate(envs):
        path, cwd = os.path.join(scratch, "dump%d" % i), os.path.join(scratch, "cwd%d" % i)
        os.makedirs(cwd)
        dumps.append(path)
        procs.append(subprocess.Popen([exe, "dump", "quick", path], env=dict(ENV, **e) if e else ENV, cwd=cwd))
    if any([p.wait(timeout=800) for p in procs]):
        raise Error("mc dump failed")
    data = [open(p, "rb").read() for p in dumps]
    tried = 0
    for i in range(len(data[0]) // 8):
        if any(d[8 * i:8 * i + 8] != data[0][8 * i:8 * i + 8] for d in data):
            tried += 1
            if tried > 300:
                break
            text = os.path.join(scratch, "text")
            subprocess.run([exe, "dump", "quick", text, str(i)], env=ENV)
            said = [subprocess.run([exe, "show", text], env=dict(ENV, **e), stdout=subprocess.PIPE).stdout.split(b"code:")[-1] for e in envs]
            said = [b"rejected" if x.strip().startswith(b"exit") else x for x in said]  # the wording may follow the language
            if len(set(said)) > 1:
                res["violations"].append({"kind": "environment", "text": open(text, "rb").read().decode("latin-1"),
                                          "detail": "the result differs between processes: %s" % set(said)})
                break
    n = len(data[0]) // 8
    res["states"] += len(envs) * n
    res["traces"] += len(envs) * n
    res["bounds"].append("%d texts in %d processes with different environments, working directories, heap contents, answers to getenv, time, rand, getpid and isatty, and locales (%s)" % (n, len(envs), ", ".join(locales)))
    if not res["violations"] and not res["cut"]:
        t = mc("steps")(id, tier, scratch)
        for k in ("states", "transitions", "traces"):
            res[k] += t[k]
        for k in ("bounds", "samples", "violations", "cut"):
            res[k] += t[k]
        res["phases"] += "; " + t["phases"]
        res["notes"].update(t["notes"])
    return res

prop("C15", "all call histories within the bounds, and all interleavings of two threads within the bounds under a scheduler that controls every memory access of the code",
     ["functions of the C library keep no state between calls other than what one switch at every function entry shows",
      "interleavings are sequentially consistent; texts that are rejected end the process and are no part of a history"], c15)

def source_words():
    """Words of the string and character literals of the sources: more arguments to try. Nothing is concluded from them."""
    words = set()
    for d, dirs, files in os.walk(os.path.join(REPO, "src")):
        for f in files:
            text = open(os.path.join(d, f), encoding="latin-1").read()
            if "main(" not in text and not any(s in text for s in ("argv", "getopt")):
                continue
            for lit in re.findall(r'"((?:[^"\\\n]|\\.)*)"', text):
                words.update(w for w in [lit] + lit.split() if 0 < len(w) < 40)
                words.update("-" + c for c in lit if c.isalnum() and len(lit) < 20)  # getopt
    words.update("--" + w for w in list(words) if re.fullmatch(r"[a-z][a-z0-9_-]{0,20}", w))
    words.update("-" + w for w in list(words) if re.fullmatch(r"[a-z][a-z0-9_-]{0,20}", w))
    return "".join(w + "\n" for w in sorted(words)[:3000] if w.isprintable())

CLIENV = lambda repo, scratch: {"NXAS_CLI": find_file(repo, "nxas"), "MC_SCRATCH": scratch, "NXAS_WORDS": source_words()}

prop("C14", "all fault sequences within the bounds at the file operations of the real executable; exit status 0 requires the complete output, anything else must be exit status 1 with a message",
     ["faults are injected at system calls (ptrace); faults of memory allocation and of writing to stderr are not part of the property",
      "the expected bytes are those of the library of the same build (C01..C13 judge them)"], mc("plain", CLIENV, True))
prop("C18", "all argument lists within the bounds, run on the real executable in a scratch directory; exit status, message and all files are compared with the contract",
     ["the expected bytes are those of the library of the same build (C01..C13 judge them)"], mc("plain", CLIENV, True))

def known_findings():
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known:"):
                out.append(json.loads(line[6:]))  # {"property":..., "kind":..., "text":..., "what":...}
    return out

def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "setup":
        for flavour in ("plain", "asan", "steps", "fill1", "fill2"):
            build(flavour, "mc", CORE + CHECKS, flavour == "plain")
        return 0
    if sys.argv[1] == "replay":
        v = json.load(open(sys.argv[2]))
        print(json.dumps(v, indent=1))
        if "text" in v:
            exe, _ = build("plain", "mc", CORE + CHECKS)
            path = os.path.join(BUILD, "replay.txt")
            with open(path, "wb") as f:
                f.write(v["text"].encode("latin-1"))
            subprocess.run([exe, "show", path], env=ENV)
        return 0
    id = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    note, assumptions, runner = PROPS[id]
    t0 = time.time()
    # the quick tier answers in time on slow machines as well; what it leaves out then is recorded
    ENV["MC_DEADLINE"] = "%.1f" % (time.monotonic() + float(os.environ.get("VERIF_DEV_LIMIT", 700 if tier == "quick" else 6 * 3600)))
    scratch = os.path.join(BUILD, "scratch-%s-%d" % (id, os.getpid()))
    os.makedirs(scratch, exist_ok=True)
    try:
        res = runner(id, tier, scratch)
    except (Error, subprocess.TimeoutExpired) as e:
        print("ERROR: %s" % e)
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    known = known_findings()
    bad = []
    seen_known = set()
    for v in res["violations"]:
        k = next((i for i, f in enumerate(known) if f["property"] == id and f["kind"] == v["kind"] and f["text"] == v["text"]), None)
        if k is None:
            bad.append(v)
        elif k not in seen_known:
            seen_known.add(k)
            print("KNOWN-FINDING: property=%s %s" % (id, known[k]["what"]))
    coverage = {"states": res["states"], "transitions": res["transitions"],
                "traces_validated_against_impl": res["traces"], "exhaustive": not bad and not res.get("cut"),
                "samples": res["samples"][:12], "bounds": res["bounds"], "phases": res.get("phases", ""), "method": note}
    coverage.update(res.get("notes", {}))
    if res.get("cut"):
        coverage["cut_short_by_time_limit"] = res["cut"]
    for k in ("deaths_not_confirmed", "suspicions_not_confirmed"):
        if res.get(k):
            coverage[k] = res[k]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", id + ".json"), "w") as f:
        json.dump({"property": id, "tier": tier, "seed": seed, "level": LEVEL.get(id, "model_checking"), "coverage": coverage,
                   "assumptions": assumptions, "wall_s": round(time.time() - t0, 1), "violations": len(bad)}, f, indent=1)
    if not bad:
        print("%s: held%s; %d states, %d executions of the code, %.1f s" % (id, " (cut short by the time limit)" if res.get("cut") else "", res["states"], res["traces"], time.time() - t0))
        return 0
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    for n, v in enumerate(bad[:5]):
        path = os.path.join(VERIF, "replays", "%s-%d.json" % (id, n))
        with open(path, "w") as f:
            json.dump(dict(v, property=id), f, indent=1)
        print("  %s: %s: %s" % (v["kind"], json.dumps(v["text"][:300]), v["detail"][:600]))
        print("VIOLATION property=%s replay=%s" % (id, path))
    return 1

LEVEL = {}

if __name__ == "__main__":
    sys.exit(main())
