#!/usr/bin/env python3
# Development tool: random small mutations of the sources, each judged by the checks mapped to its file.
# automut.py WORKER SECONDS SEED FILE=PROP,PROP ...   results appended to /tmp/am/res.WORKER.jsonl
import os, re, sys, json, random, subprocess, time
W, SECS, SEED = sys.argv[1], float(sys.argv[2]), int(sys.argv[3])
spec = [a.split("=") for a in sys.argv[4:]]
M, B, V = "/tmp/am/repo%s" % W, "/tmp/am/build%s" % W, "/tmp/am/verif%s" % W
sh = lambda c, t=600: subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
if not os.path.isdir(M): sh("git clone -q /repo %s" % M)
sh("git -C %s fetch -q /repo HEAD && git -C %s checkout -q -f FETCH_HEAD" % (M, M))
if not os.path.isdir(V): sh("git clone -q /verif %s" % V)
sh("git -C %s fetch -q /verif HEAD && git -C %s checkout -q -f FETCH_HEAD" % (V, V))
rnd = random.Random(SEED)
def blank(src, f90):
    out, i, n = list(src), 0, len(src)
    def wipe(a, b):
        for k in range(a, min(b, n)):
            if out[k] != "\n": out[k] = " "
    if f90:
        for m in re.finditer(r"!.*|^#.*$|'[^'\n]*'|\"[^\"\n]*\"", src, re.M): wipe(*m.span())
    else:
        for m in re.finditer(r"/\*.*?\*/|//[^\n]*|^[ \t]*#(?:[^\n]*\\\n)*[^\n]*$|\"(?:\\.|[^\"\\\n])*\"|'(?:\\.|[^'\\\n])+'", src, re.M | re.S): wipe(*m.span())
    return "".join(out)
def sites(src, f90):
    b = blank(src, f90); r = []
    def add(rx, reps, kind):
        for m in re.finditer(rx, b):
            for x in reps: r.append((m.start(1), m.end(1), x, kind))
    if f90:
        add(r"(?<=[\w)]) (\+) (?=[\w(])", ["-"], "arith"); add(r"(?<=[\w)]) (-) (?=[\w(])", ["+"], "arith"); add(r"(?<=[\w)]) ?(\*) ?(?=[\w(])", ["/"], "arith")
        add(r"(?<![\w.])(\d)(?![\w.])", ["0", "1", "2", "3"], "const"); add(r"([<>]=?)", ["<", ">", "<=", ">="], "rel")
        for m in re.finditer(r"^[ \t]*(?:call \w+\(.*\)|[\w%(),: ]+ = [^\n&]+)$", b, re.M):
            if "::" not in m.group(0): r.append((m.start(), m.end(), "", "del"))
    else:
        add(r"[\w)\]] (<|>|<=|>=) [\w(&-]", ["<", ">", "<=", ">="], "rel"); add(r"(==|!=)", ["==", "!="], "rel"); add(r"(&&|\|\|)", ["&&", "||"], "logic")
        add(r"[\w)\]] ?(\+|-) ?[\w(]", ["+", "-"], "arith"); add(r"[\w)\]] ?(\*|/) ?[\w(]", ["*", "/"], "arith"); add(r"(\+=|-=|\*=|/=)", ["+=", "-=", "="], "assign"); add(r"(\+\+|--)", ["++", "--"], "inc")
        add(r"(?<![\w.])(\d)(?![\w.])", ["0", "1", "2", "3"], "const"); add(r"\bif ?\((?=[^\n]*\) ?\{)( )", [" !"], "neg")
        for m in re.finditer(r"\n[ \t]+((?:[\w>.\[\]*-]+ ?[-+*/]?= ?[^;{}]+|[\w]+ ?\([^;{}]*\)|return [^;]+);)", b):
            t = m.group(1)
            if t.startswith("return"): continue
            r.append((m.start(1), m.end(1), ";", "del"))
    return [(a, e, x, k) for a, e, x, k in r if src[a:e] != x]
pool = {}
for f, p in spec:
    s = open(os.path.join(M, f)).read(); f90 = f.endswith(("90",)); pool[f] = (s, sites(s, f90), p.split(","))
t0 = time.time()
env = dict(os.environ, VK_REPO=M, VK_BUILD=B, VK_DEV="1", VERIF_SEED="1", VERIF_TIER="quick")
names = list(pool); seen = set()
while time.time() - t0 < SECS:
    f = rnd.choice(names); s, st, props = pool[f]
    if not st: continue
    kinds = sorted({x[3] for x in st}); k = rnd.choice(kinds); a, e, x, k = rnd.choice([q for q in st if q[3] == k])
    if (f, a, x) in seen: continue
    seen.add((f, a, x))
    ln = s.count("\n", 0, a) + 1; old = s[a:e]
    open(os.path.join(M, f), "w").write(s[:a] + x + s[e:])
    res, by = "survived", ""
    t1 = time.time()
    for p in props:
        try:
            r = subprocess.run(["nice", "python3", V + "/vk/run.py", p, "quick"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, timeout=600)
        except subprocess.TimeoutExpired:
            res, by = "timeout", p; break
        if "build failed" in r.stdout: res = "nobuild"; break
        if "VIOLATION property=" in r.stdout: res, by = "killed", p; break
        if r.returncode not in (0, 1): res, by = "rc%d" % r.returncode, r.stdout[-300:]; break
    open(os.path.join(M, f), "w").write(s)
    line = s.split("\n")[ln - 1].strip()
    json.dump(dict(file=f, line=ln, kind=k, old=old[:100], new=x, text=line[:120], res=res, by=by, t=round(time.time() - t1, 1)), open("/tmp/am/res.%s.jsonl" % W, "a")); open("/tmp/am/res.%s.jsonl" % W, "a").write("\n")
