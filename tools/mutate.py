#!/usr/bin/env python3
"""Operator mutants of cafes' headers against the checks.

  mutate.py gen DIR N SEED [FILE...]   draws N mutants of lines that end up in the object code
  mutate.py build DIR                  compiles them (8 at a time); drops those with identical code
  mutate.py run DIR BUDGET             runs the checks that concern the file, until one fails
  mutate.py report DIR
Everything lives in DIR (outside /repo and /verif). SIM_REPO: the tree to start from.
"""
import json, os, random, re, subprocess, sys, hashlib, shutil, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
PETSC = "/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-real"
BIN = os.environ.get("SIM_BUILD", V + "/build")

def cxx(inc, out, extra=()):
    return ["mpicxx", "-std=c++14", "-w", "-O1", "-include", "/opt/vp/support/petsc_compat.h", "-ffile-prefix-map=%s=/x" % inc, "-I%s/cafes" % inc, "-I%s/external_packages/qhull" % REPO,
            "-I%s/include" % PETSC, "-I/usr/share/petsc/3.19/include", "-I/usr/lib/petsc/include", "-I/usr/include/hdf5/openmpi", "-I%s/sim" % V, "-I%s/wl" % V, "-c", V + "/wl/wl.cpp", "-o", out, *extra]

OPS = [(r"(?<![-+*/=<>!&|eE(,\[])\s\+\s(?!=)", " - "), (r"(?<=[\w\])])\s-\s(?=[\w(])", " + "), (r"(?<=[\w\])])\+(?=[\w(])", "-"), (r"(?<=[\w\])])-(?=[\w(])(?!>)", "+"), (r"(?<=[\w\])])\s?\*\s?(?=[\w(])", " / "), (r"(?<=[\w\])])\s?/\s?(?=[\w(])", " * "),
       (r"(?<![<\-])<=(?!>)", "<"), (r" < ", " <= "), (r">=", ">"), (r"(?<!-) > ", " >= "), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"), (r"\+=", "="), (r"\+=", "-="), (r"-=", "+="), (r"!(?=[\w(])(?!=)", ""),
       (r"\[0\]", "[1]"), (r"\[1\]", "[0]"), (r"(?<![\w.])1(?![\w.])", "0"), (r"(?<![\w.\[])0(?![\w.])", "1"), (r"(?<![\w.])2(?![\w.>])", "3"), (r"(?<![\w.])1\.(?!\d)", "0."), (r"(?<![\w.])\.5", ".25"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"ADD_VALUES", "INSERT_VALUES"), (r"INSERT_VALUES", "ADD_VALUES"),
       (r"std::floor", "std::ceil"), (r"std::ceil", "std::floor"), (r"std::min", "std::max"), (r"std::max", "std::min"), (r"\bcos\b|std::cos", "std::sin"), (r"std::sin\b", "std::cos"), (r"MPI_SUM", "MPI_MAX"), (r"\bis\b", "js"), (r"\bi\b", "j"), (r"\bnull_space\b", "nullptr")]
def emitted():
    out = "/tmp/mutate.ref.o"
    subprocess.check_call(cxx(REPO, out, ["-g"]))
    t = subprocess.run(["objdump", "--dwarf=decodedline", out], capture_output=True, text=True).stdout
    s = {}
    cur = None
    files = {os.path.basename(f): [] for f in subprocess.run(["git", "-C", REPO, "ls-files", "cafes"], capture_output=True, text=True).stdout.split()}
    full = subprocess.run(["git", "-C", REPO, "ls-files", "cafes"], capture_output=True, text=True).stdout.split()
    byname = {}
    for f in full: byname.setdefault(os.path.basename(f), []).append(f)
    for l in t.splitlines():
        m = re.match(r"(?:CU: )?(\S+):$|^\S*/x/(\S+):", l)
        w = l.split()
        if len(w) >= 2 and w[1].isdigit() and w[0] in byname and len(byname[w[0]]) == 1: s.setdefault(byname[w[0]][0], set()).add(int(w[1]))
    os.remove(out)
    return s
def gen(d, n, seed, only):
    os.makedirs(d, exist_ok=True); rnd = random.Random(seed); cand = []
    for f, ls in sorted(emitted().items()):
        if only and not any(o in f for o in only): continue
        src = open(os.path.join(REPO, f)).read().split("\n"); com = False
        # a statement spans lines: neighbours of an emitted line up to the previous ; count
        use = set()
        for l in ls:
            k = l; use.add(k)
            while k < len(src) and not re.search(r"[;{}]\s*$", src[k - 1]): k += 1; use.add(k)
        for i, l in enumerate(src, 1):
            s = l.split("//")[0]
            if i not in use or not s.strip() or s.lstrip().startswith("#"): continue
            for pat, rep in OPS:
                for m in re.finditer(pat, s):
                    new = s[:m.start()] + rep + s[m.end():]
                    if new != s: cand.append((f, i, l, new))
            if re.match(r"^\s*(ierr = .*;\s*CHKERRQ\(ierr\);|[a-zA-Z_:.]+\(.*\);|[\w\]\[.]+ [-+]?= .*;)\s*$", s): cand.append((f, i, l, re.match(r"\s*", s).group() + ";"))
    # lines are drawn evenly, and files by the root of their number of lines
    cand = [c for c in cand if "UandPTang" not in c[0] or "Tang" in " ".join(only)]
    bl = {}
    for c in cand: bl.setdefault(c[0], {}).setdefault(c[1], []).append(c)
    q = []
    for f in bl:
        ls = list(bl[f].values()); rnd.shuffle(ls)
        for l in ls: rnd.shuffle(l)
        rounds = max(len(l) for l in ls); seq = [l[r] for r in range(rounds) for l in ls if r < len(l)]
        w = len(ls) ** .5
        q += [((k + rnd.random()) / w, c) for k, c in enumerate(seq)]
    q.sort(key=lambda t: t[0]); cand = [c for _, c in q]
    seen = set(); out = []
    per = {}
    for c in cand:
        k = (c[0], c[1], c[3])
        if k in seen: continue
        seen.add(k)
        out.append(dict(id=len(out), file=c[0], line=c[1], old=c[2], new=c[3]))
        if len(out) >= n: break
    json.dump(out, open(d + "/mutants.json", "w"), indent=0)
    print(len(cand), "candidates,", len(out), "drawn")
    fs = {}
    for m in out: fs[m["file"]] = fs.get(m["file"], 0) + 1
    for f in sorted(fs): print("  ", f, fs[f])
def load(d): return json.load(open(d + "/mutants.json"))
def one(d, m, base):
    w = "%s/t%d" % (d, m["id"]); o = "%s/m%d.o" % (d, m["id"])
    if os.path.exists(o) or m.get("state"): return m
    shutil.copytree(REPO + "/cafes", w + "/cafes")
    p = os.path.join(w, m["file"]); s = open(p).read().split("\n"); assert s[m["line"] - 1] == m["old"]; s[m["line"] - 1] = m["new"]; open(p, "w").write("\n".join(s))
    r = subprocess.run(cxx(w, o), capture_output=True, text=True)
    shutil.rmtree(w)
    if r.returncode: m["state"] = "does not compile"; return m
    h = hashlib.sha1(open(o, "rb").read()).hexdigest()
    if h == base: m["state"] = "identical"; os.remove(o)
    return m
def build(d):
    ms = load(d); b = d + "/base.o"; subprocess.check_call(cxx(REPO, b)); base = hashlib.sha1(open(b, "rb").read()).hexdigest()
    with ThreadPoolExecutor(8) as ex: list(ex.map(lambda m: one(d, m, base), ms))
    json.dump(ms, open(d + "/mutants.json", "w"), indent=0)
    print({s: sum(1 for m in ms if m.get("state") == s) for s in set(m.get("state") for m in ms)})
ORDER = {"fem/mesh": "C01 C04 C02 C12 C05", "fem/quadrature": "C02 C03 C16 C17 C07 C11", "fem/matElem": "C02 C16 C03", "fem/matrixFree": "C02 C16 C03 C15 C05 C14", "fem/operator": "C02 C16 C05 C14", "fem/assembling": "C02 C16 C04 C05 C14", "fem/rhs": "C03 C07 C15 C14 C05", "fem/bc": "C03 C02 C04 C16 C05 C14",
  "petsc/vec": "C01 C02 C14 C15 C05", "problem/stokes": "C04 C02 C16 C15 C05 C14", "problem/context": "C02 C15 C04", "problem/options": "C04 C05 C14", "problem/matMult": "C02 C16 C14", "problem/sem": "C07 C08 C10 C15 C05 C14", "problem/dton": "C09 C17 C15 C05 C14", "problem/particle_operator": "C07 C09 C06 C08 C17 C05 C14",
  "particle/particle": "C06 C07 C10 C09 C05", "particle/forces": "C10 C08 C05", "particle/physics": "C07 C09 C10 C05", "particle/geometry": "C06 C07 C10 C17 C01 C05", "particle/singularity": "C17 C05", "posttrait": "C11 C12 C05 C14", "io/hdf5": "C12 C13", "algorithm": "C02 C06 C03 C17"}
def checks(f):
    for k, v in ORDER.items():
        if k in f: return v.split()
    return "C02 C03 C04 C06 C07 C09 C17 C05".split()
def run(d, budget):
    ms = load(d); lib = [BIN + "/" + f for f in sorted(os.listdir(BIN)) if f.endswith(".o") and f != "wl.o"]
    os.makedirs(d + "/v/evidence", exist_ok=True)
    for m in ms:
        o = "%s/m%d.o" % (d, m["id"])
        if m.get("state") or not os.path.exists(o): continue
        exe = d + "/sim"
        subprocess.check_call(["mpicxx", "-rdynamic", "-o", exe, o, *lib, "-L%s/lib" % PETSC, "-lpetsc_real", "-L/usr/lib/x86_64-linux-gnu/hdf5/openmpi", "-lhdf5", "-llapack", "-lblas", "-lgfortran", "-ldl", "-Wl,-rpath,%s/lib" % PETSC])
        m["state"] = "survived"
        for c in checks(m["file"]):
            r = subprocess.run([exe, "check", c, "--budget", str(budget), "--seed", "1"], capture_output=True, text=True, env=dict(os.environ, SIM_VERIF=d + "/v", SIM_NOMIN="1"))
            if r.returncode == 1: m["state"] = "caught"; m["by"] = c; m["how"] = (re.search(r"fails: (.*)", r.stdout + r.stderr) or [None, ""])[1][:200]; break
            if r.returncode: m["state"] = "error %d" % r.returncode; m["by"] = c; m["how"] = r.stderr[-300:]; break
        os.remove(o)
        json.dump(ms, open(d + "/mutants.json", "w"), indent=0)
        print(m["id"], m["file"], m["line"], m["state"], m.get("by", ""), flush=True)
def report(d):
    ms = load(d); st = {}
    for m in ms: st[m.get("state")] = st.get(m.get("state"), 0) + 1
    print(st)
    for m in ms:
        if m.get("state", "").split()[0:1] in (["survived"], ["error"]): print("%d %s:%d %s %s\n   - %s\n   + %s" % (m["id"], m["file"], m["line"], m["state"], m.get("by", ""), m["old"].strip(), m["new"].strip()))
a = sys.argv
if len(a) < 3: print(__doc__); sys.exit(2)
if a[1] == "gen": gen(a[2], int(a[3]), int(a[4]), a[5:])
elif a[1] == "build": build(a[2])
elif a[1] == "run": run(a[2], float(a[3]))
else: report(a[2])
