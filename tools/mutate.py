#!/usr/bin/env python3
"""Development tool: mutates a copy of /repo, keeps the mutants that build and pass the tests, runs the checks on them.

  mutate.py <work dir> <number> <seed> [file regex] [checks]
Writes <work dir>/log.jsonl. Nothing in /verif or /repo depends on it.
"""
import json, os, random, re, shutil, subprocess, sys, time
work, number, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
only = re.compile(sys.argv[4] if len(sys.argv) > 4 else ".")
ORDER = (sys.argv[5] if len(sys.argv) > 5 else "C05 C06 C07 C08 C09 C10 C11 C17 C16 C01 C02 C03 C04 C13 C14 C18 C15 C12").split()
VERIF = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
R, B = work + "/r", work + "/b"
random.seed(seed)
os.makedirs(work, exist_ok=True)
shutil.rmtree(R, ignore_errors=True)
shutil.copytree("/repo", R, ignore=shutil.ignore_patterns("_build", "build"))
subprocess.run(["cmake", "-S", R, "-B", B, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None", "-DCMAKE_CXX_FLAGS=-O1"], stdout=subprocess.DEVNULL, check=True)
subprocess.run(["ninja", "-C", B], stdout=subprocess.DEVNULL, check=True)

def mutants(path):
    text = open(path).read()
    lines = text.split("\n")
    out = []
    def add(i, new):
        if new != lines[i]:
            out.append((i, new))
    for i, l in enumerate(lines):
        s = l.strip()
        if not s or s.startswith("//") or s.startswith("#") or "static_assert" in s:
            continue
        for m in re.finditer(r"\b(0x[0-9A-Fa-f]+|\d+)(ULL|U|LL|L)?\b", l):
            v = int(m.group(1), 0) if not re.match(r"0\d", m.group(1)) else None
            if v is None or '"' in l[:m.start()] and l[:m.start()].count('"') % 2:
                continue
            for w in (v + 1, v - 1, v ^ 2, v << 1):
                if w >= 0 and w != v:
                    add(i, l[:m.start()] + (hex(w) if m.group(1).startswith("0x") else str(w)) + (m.group(2) or "") + l[m.end():])
        for a, b in ((" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" == ", " != "), (" != ", " == "), (" && ", " || "), (" || ", " && "),
                     (" + ", " - "), (" - ", " + "), ("true", "false"), ("false", "true"), (" | ", " & "), ("<<", ">>"), ("++", ""), ("|=", "="), ("!", ""), (" % ", " / "), ("min", "max")):
            for m in re.finditer(re.escape(a), l):
                add(i, l[:m.start()] + b + l[m.end():])
        strs = list(re.finditer(r'"([^"\\]*)"', l))
        for m in strs:  # table entries
            if len(m.group(1)) and "fail" not in l and "error" not in l:
                add(i, l[:m.start()] + '"' + m.group(1)[:-1] + ("Q" if m.group(1)[-1] != "Q" else "W") + '"' + l[m.end():])
        for a, b in zip(strs, strs[1:]):
            if "fail" not in l and "error" not in l:
                add(i, l[:a.start()] + b.group(0) + l[a.end():b.start()] + a.group(0) + l[b.end():])
        if re.match(r"\s*(CHECK\(.*\);|token = ctx\.tokenize\(\);|op\.add_bits\(.*\);|break;|op = saved_op;|ctx = saved_context;|[a-z_.\[\]]+ [+|]?= .*;|next\(\);|return fail\(.*\);)$", l):
            add(i, re.match(r"\s*", l).group(0) + ";")
        m = re.match(r"(\s*(?:\} else )?if \()(.*)(\) \{)$", l)
        if m:
            add(i, m.group(1) + "false" + m.group(3))
            add(i, m.group(1) + "true" + m.group(3))
        # neighbours swapped
        if i + 1 < len(lines) and re.match(r'\s*"[^"]*",$', l) and re.match(r'\s*"[^"]*",$', lines[i + 1]) and lines[i + 1] != l:
            out.append((i, "SWAP"))
    return lines, out

files = [f for f in sorted(os.listdir(R + "/src")) if only.search(f)]
allm = []
for f in files:
    lines, ms = mutants(R + "/src/" + f)
    allm += [(f, i, n) for i, n in ms]
random.shuffle(allm)
print(len(allm), "mutants")
log = open(work + "/log.jsonl", "a")
done = 0
for f, i, new in allm:
    if done >= number:
        break
    path = R + "/src/" + f
    orig = open("/repo/src/" + f).read()
    lines = orig.split("\n")
    old = lines[i]
    if new == "SWAP":
        lines[i], lines[i + 1] = lines[i + 1], lines[i]
    else:
        lines[i] = new
    open(path, "w").write("\n".join(lines))
    try:
        r = subprocess.run(["ninja", "-C", B], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if r.returncode:
            continue
        try:
            r = subprocess.run(["ctest", "--test-dir", B, "-j8", "--stop-on-failure", "--timeout", "20"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
        except subprocess.TimeoutExpired:
            continue
        if r.returncode:
            continue
        done += 1
        t = time.time()
        caught = None
        for c in ORDER:
            try:
                r = subprocess.run(["python3", VERIF + "/check.py", c, "quick"], env=dict(os.environ, VERIF_DEV_REPO=R), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=900)
            except subprocess.TimeoutExpired:
                caught = c + " TIMEOUT"
                break
            o = r.stdout.decode(errors="replace")
            if r.returncode == 1:
                caught = c + ": " + o.split("\n")[0][:300]
                break
            if r.returncode:
                caught = c + " ERROR " + o[:300]
                break
        log.write(json.dumps({"file": f, "line": i + 1, "old": old.strip(), "new": new.strip(), "caught": caught, "s": round(time.time() - t)}) + "\n")
        log.flush()
        print(f, i + 1, "|", old.strip(), "=>", new.strip(), "|", caught, flush=True)
    finally:
        open(path, "w").write(orig)
