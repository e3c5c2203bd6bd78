"""Strength measurement (not a check): applies small mutations to the library's source in scratch copies, runs reduced
simulations of every asan-variant property on each, and lists the mutants nothing notices.
usage: mutate.py OUT.jsonl [--kind assert|all] [--files SUBSTR,..] [--sample N] [--props C18,..] [--scale 0.1] [--jobs 8]"""
import sys, os, re, json, random, subprocess, hashlib, shutil, argparse, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
os.environ['ASAN_OPTIONS']=re.search(r'ASAN_OPTIONS=(\S+)',open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'env.sh')).read())[1]
ap = argparse.ArgumentParser(); ap.add_argument("out"); ap.add_argument("--kind", default="all"); ap.add_argument("--files", default=""); ap.add_argument("--sample", type=int, default=0)
ap.add_argument("--props", default=""); ap.add_argument("--scale", type=float, default=0.1); ap.add_argument("--jobs", type=int, default=8); ap.add_argument("--seed", type=int, default=1); ap.add_argument("--list", action="store_true")
A = ap.parse_args()
TMP = "/tmp/mut"; os.makedirs(TMP, exist_ok=True)
v = B.VARIANT["asan"]
inc = ["-I" + B.SIM] + ["-I" + os.path.join(B.REPO, i) for i in B.INCDIRS] + ["-I" + os.path.join(B.SIM, "stubs"), "-I/usr/include/SDL"]
def libcmd(src, out, real=None, flags=None):
    cxx = src.endswith(".cpp")
    return ["g++" if cxx else "gcc", "-c", src, "-o", out, "-w", "-fPIC"] + (v["lib"] if flags is None else flags) + B.DEFS + ["-std=gnu++11" if cxx else "-std=gnu17", "-I" + os.path.dirname(real or src)] + inc
def base():
    d = os.path.join(TMP, "base-" + B.digest("asan")); os.makedirs(d, exist_ok=True); objs = {}; jobs = []
    for s in B.lib_sources() + [os.path.join(B.SIM, g) for g in B.GLUE]:
        o = os.path.join(d, hashlib.sha1(s.encode()).hexdigest()[:12] + ".o"); objs[s] = o
        if not os.path.exists(o): jobs.append(libcmd(s, o))
    for s in B.SRC["asan"]:
        p = os.path.join(B.SIM, s); o = os.path.join(d, s + ".o"); objs[p] = o
        if not os.path.exists(o): jobs.append(["g++", "-c", p, "-o", o, "-w", "-fPIC", "-O1", "-g1", "-std=gnu++17"] + B.DEFS + v["defs"] + inc)
    with ThreadPoolExecutor(8) as ex: list(ex.map(B.run, jobs))
    return objs
QUICK = {}
for f in os.listdir(B.SIM):
    if f.startswith("p_"):
        for m in re.finditer(r'\{"(C\d\d)",\w+,\w+,(\d+),(\d+)\}', open(os.path.join(B.SIM, f)).read()): QUICK[m[1]] = int(m[2])
QUICK.pop("C11", None)
ORDER = ["C18", "C08", "C07", "C09", "C12", "C16", "C01", "C05", "C02", "C13", "C14", "C15", "C10", "C03", "C06", "C17", "C04"]
def strip(text):  # blanks out comments and strings, keeping positions
    return re.sub(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])\'', lambda m: re.sub(r'[^\n]', ' ', m[0]), text, flags=re.S)
def mutants(path):
    t = open(path, errors="surrogateescape").read(); s = strip(t); out = []
    s = re.sub(r'^[ \t]*#[^\n]*', lambda m: " " * len(m[0]), s, flags=re.M)
    def add(a, b, new, kind): out.append((a, b, new, kind))
    for m in re.finditer(r'hypercv_assert\s*\(', s):
        d = 1; i = m.end(); comma = None; cuts = []
        while i < len(s) and d:
            if s[i] in "([{": d += 1
            elif s[i] in ")]}": d -= 1
            elif s[i] == "," and d == 1 and comma is None: comma = i
            i += 1
        end = (comma or i - 1); cond = s[m.end():end]
        add(m.end(), end, "1", "assert")
        if "&&" in cond:
            parts = []; d = 0; last = 0
            for k in range(len(cond)):
                if cond[k] in "([": d += 1
                elif cond[k] in ")]": d -= 1
                elif cond[k:k+2] == "&&" and d == 0: parts.append((last, k)); last = k + 2
            parts.append((last, len(cond)))
            if len(parts) > 1:
                for a, b in parts: add(m.end() + a, m.end() + b, " 1 ", "conjunct")
        for r in re.finditer(r'==|!=|>=|<=|(?<![-<>])>(?![>=])|(?<!<)<(?![<=])', cond):
            rep = {"==": "<=", ">": ">=", "<": "<=", ">=": ">", "<=": "<", "!=": ">="}[r[0]]
            add(m.end() + r.start(), m.end() + r.end(), rep, "assertop")
            if r[0] == "==": add(m.end() + r.start(), m.end() + r.end(), ">=", "assertop")
    if A.kind == "all":
        spans = [(m.start(), s.find(";", m.start())) for m in re.finditer(r'hypercv_assert\s*\(', s)]
        ina = lambda p: any(a <= p <= b for a, b in spans)
        for r in re.finditer(r'(?<=[\w\)\]\s])(==|!=|>=|<=|&&|\|\||(?<![-<>])>(?![>=])|(?<!<)<(?![<=]))(?=[\s\w\(\-!*&])', s):
            if ina(r.start()): continue
            for rep in {"==": ["!="], "!=": ["=="], ">": [">="], "<": ["<="], ">=": [">"], "<=": ["<"], "&&": ["||"], "||": ["&&"]}[r[0]]: add(r.start(), r.end(), rep, "relop")
        for r in re.finditer(r'(?<=[\w\)\]])\s*([-+*/])\s*(?=[\w\(])(?!=)', s):
            if ina(r.start()): continue
            if r[1] == "*" and re.search(r'\b(int|char|float|double|void|short|long|FILE|unsigned|uchar|ushort|POINT|T)\s*$', s[:r.start(1)][-14:]): continue
            rep = {"+": "-", "-": "+", "*": "+", "/": "*"}[r[1]]
            add(r.start(1), r.end(1), rep, "arith")
        for r in re.finditer(r'(?<![\w.])(\d+)(?![\w.])', s):
            if ina(r.start()): continue
            add(r.start(), r.end(), str(int(r[1]) + 1), "const")
            if int(r[1]) > 0: add(r.start(), r.end(), str(int(r[1]) - 1), "const")
        for r in re.finditer(r'^[ \t]*((?!return|break|continue|else|case|int |char |float |double |unsigned |void |hyper_mat |simple_mat |size_t |goto|default|typedef|extern|struct|const |static |#)[A-Za-z_*(][^;{}\n]*;)[ \t]*$', s, flags=re.M):
            if ina(r.start(1)): continue
            add(r.start(1), r.end(1), ";", "delete")
    seen = set(); res = []
    for a, b, new, kind in out:
        if (a, b, new) in seen: continue
        seen.add((a, b, new)); res.append(dict(file=path, a=a, b=b, new=new, kind=kind, line=t.count("\n", 0, a) + 1, old=t[a:b], src=t.splitlines()[t.count("\n", 0, a)].strip()))
    return t, res
OBJS = None; REF = {}
def text_of(o):
    return subprocess.run(["objdump", "-d", "-s", "-j", ".text", "-j", ".rodata", "-j", ".text.unlikely", "-r", o], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout.split(b"\n", 3)[-1]
def one(m):
    d = os.path.join(TMP, "m%d" % m["id"]); os.makedirs(d, exist_ok=True)
    try:
        t = open(m["file"], errors="surrogateescape").read(); src = os.path.join(d, os.path.basename(m["file"]))
        open(src, "w", errors="surrogateescape").write(t[:m["a"]] + m["new"] + t[m["b"]:])
        o2 = os.path.join(d, "o2.o"); F = ["-O2", "-fno-inline-small-functions"]
        if subprocess.run(libcmd(src, o2, m["file"], F), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode: m["result"] = "uncompilable"; return m
        if m["file"] not in REF:
            r = os.path.join(TMP, hashlib.sha1(m["file"].encode()).hexdigest() + ".ref.o"); subprocess.run(libcmd(m["file"], r, None, F)); REF[m["file"]] = text_of(r)
        if text_of(o2) == REF[m["file"]]: m["result"] = "equivalent"; return m
        o = os.path.join(d, "m.o"); B.run(libcmd(src, o, m["file"])); exe = os.path.join(d, "sim")
        B.run(["g++", "-no-pie", "-o", exe] + [o if s == m["file"] else x for s, x in OBJS.items()] + v["link"] + ["-Wl," + ",".join("--wrap=" + w for w in B.WRAPS), "-ldl", "-lm"])
        m["result"] = "SURVIVED"; m["errors"] = []
        for p in (A.props.split(",") if A.props else ORDER):
            if p not in QUICK: continue
            try: r = subprocess.run([exe, "--prop", p, "--runs", str(max(50, int(QUICK[p] * A.scale))), "--workers", "1", "--nomin", "--json", "/dev/null"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900, text=True, errors="replace")
            except subprocess.TimeoutExpired: m["errors"].append(p + " timeout"); continue
            if r.returncode == 1: m["result"] = "caught"; m["by"] = p; m["msg"] = r.stdout.strip()[:200]; break
            if r.returncode: m["errors"].append(p + " " + r.stdout[-200:])
    except Exception as e: m["result"] = "error " + str(e)[:300]
    finally: shutil.rmtree(d, ignore_errors=True)
    return m
allm = []
for f in B.lib_sources():
    if A.files and not any(x in f for x in A.files.split(",")): continue
    allm += mutants(f)[1]
if A.sample and len(allm) > A.sample: random.Random(A.seed).shuffle(allm); allm = allm[:A.sample]
for i, m in enumerate(allm): m["id"] = i
if A.list: print(len(allm)); [print(m["kind"], os.path.basename(m["file"]), m["line"], m["old"], "->", m["new"]) for m in allm]; sys.exit()
OBJS = base(); n = 0
with open(A.out, "w") as out, ThreadPoolExecutor(A.jobs) as ex:
    for m in ex.map(one, allm):
        out.write(json.dumps(m) + "\n"); out.flush()
