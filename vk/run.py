#!/usr/bin/env python3
"""Driver: build from /repo, run the monitors of one property, give the verdict.

  run.py PROPERTY quick|thorough        exit 0 held, 1 violation, 2 error, 3 inconclusive
  run.py --replay FILE                  re-run the recorded failing case
"""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as B
from checks import CHECKS, HARNESSES

VERIF = os.path.dirname(HERE)
OUT = os.path.join(VERIF, "out")
NPROC = os.cpu_count() or 4
WALL = 700          # watchdog per process; inconclusive when it fires

ASAN = ("abort_on_error=1:detect_leaks=0:max_malloc_fill_size=33554432:malloc_fill_byte=255:"
        "allocator_may_return_null=1:detect_stack_use_after_return=0:alloc_dealloc_mismatch=1:"
        "handle_segv=1:strict_memcmp=0:allow_user_segv_handler=0")
UBSAN = "print_stacktrace=1:halt_on_error=1:abort_on_error=1:suppressions=%s/ubsan.supp" % HERE
TSAN = "halt_on_error=1:abort_on_error=1:second_deadlock_stack=1:exitcode=66:suppressions=%s/tsan.supp" % HERE


def env_for():
    e = dict(os.environ)
    e.update(ASAN_OPTIONS=ASAN, UBSAN_OPTIONS=UBSAN, TSAN_OPTIONS=TSAN, OMP_NUM_THREADS="1",
             OPENBLAS_NUM_THREADS="1", LC_ALL="C", TZ="UTC", SDL_VIDEODRIVER="dummy",
             PYTHONDONTWRITEBYTECODE="1")
    return e


def tsan_prefix():
    """TSan needs a low-entropy address space: disable ASLR for the child."""
    if shutil.which("setarch"):
        p = subprocess.run(["setarch", os.uname().machine, "-R", "true"], capture_output=True)
        if p.returncode == 0:
            return ["setarch", os.uname().machine, "-R"]
    return []


def run_proc(cmd, cwd, env, stderr_path, wall=WALL):
    with open(stderr_path, "wb") as ef:
        try:
            p = subprocess.run(cmd, cwd=cwd, env=env, stdin=subprocess.DEVNULL,
                               stdout=subprocess.DEVNULL, stderr=ef, timeout=wall)
            return p.returncode
        except subprocess.TimeoutExpired:
            return None


def crash_key(stderr_path, rc):
    txt = open(stderr_path, errors="replace").read()
    kind, where = None, None
    m = re.search(r"SUMMARY: (\w+)Sanitizer: ([\w\-]+)", txt)
    if m:
        kind = "%s:%s" % (m.group(1), m.group(2))
    m2 = re.search(r"runtime error: (.*)", txt)
    if m2 and (not m or m.group(1).startswith("Undefined")):
        kind = "ubsan:" + re.sub(r"0x[0-9a-f]+|-?\d+(\.\d+)?(e[+-]?\d+)?", "N", m2.group(1))[:80]
    for f in re.finditer(r"#\d+ (?:0x[0-9a-f]+ in )?([^\n]*)", txt):
        # first frame inside the library under test
        fr = f.group(1)
        mm = re.match(r"([\w:~<>,\. ]+?)(?:\(.*?\))? (?:%s/)((?:src|include)/[\w/\.\-]+):(\d+)" % re.escape(B.REPO), fr)
        if mm:
            where = mm.group(1).strip()
            break
    if m2 and not where:
        mm = re.search(r"((?:src|include)/[\w/\.]+):\d+:\d+: runtime error", txt)
        where = mm.group(1) if mm else None
    if not kind:
        mm = re.search(r"(terminate called|Assertion `.*?' failed|double free|VKHANG)", txt)
        kind = mm.group(1) if mm else ("signal%d" % -rc if rc < 0 else "exit%d" % rc)
    return "crash:%s%s" % (kind, "@" + where if where else ""), txt[-6000:]


def load_known(prop):
    known = []
    f = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                known.append((m.group(2), m.group(3)))
    return known


def py_env():
    """Environment of a Python-side monitor: sanitizer runtimes preloaded, instrumented libraries, real bindings."""
    rt = [subprocess.run(["gcc", "-print-file-name=" + l], capture_output=True, text=True).stdout.strip()
          for l in ("libasan.so", "libubsan.so", "libstdc++.so.6")]
    e = env_for()
    e.update(LD_PRELOAD=" ".join(rt), LD_LIBRARY_PATH=os.path.join(B.BUILD, "pyasan"), PYTHONPATH="%s/python" % B.REPO,
             PYTHONHASHSEED="0", PYTHONMALLOC="malloc", PYTHONDONTWRITEBYTECODE="1")
    e["ASAN_OPTIONS"] = e.get("ASAN_OPTIONS", "") + ":detect_leaks=0:max_free_fill_size=65536:free_fill_byte=245"
    return e


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.spec = CHECKS[prop]
        self.viol, self.inconclusive = [], []
        self.cases = self.events = 0
        self.distinct, self.counters, self.samples = set(), {}, []
        self.sections = {}
        self.hung = set()
        self.tmp = tempfile.mkdtemp(prefix="vk-%s-" % prop)

    def accept_key(self, key):
        if self.spec.get("region_only"):
            return key.startswith("region:") or key == "heap"
        return not key.startswith("region:") and (key != "heap" or bool(self.spec.get("heap")))

    def jobs(self):
        jobs = []
        for hn in self.spec["harnesses"]:
            only = None
            if isinstance(hn, tuple):
                hn, only = hn
            h = HARNESSES[hn]
            exe = os.path.join(B.BUILD, h["flavour"], h["exe"])
            pre = tsan_prefix() if h["flavour"] == "tsan" else []
            lst = subprocess.run(pre + [exe, "--list"], stdout=subprocess.PIPE, text=True, env=env_for()).stdout.split("\n")
            found = set()
            for l in lst:
                if not l.strip():
                    continue
                name, q, t = l.split()
                if only is not None and name not in only:
                    continue
                found.add(name)
                n = int(q if self.tier == "quick" else t)
                scale = self.spec.get("scale", 1.0)
                n = max(1, int(n * scale))
                chunks = min(n, NPROC if self.tier == "quick" else 2 * NPROC)
                if h["flavour"] == "tsan":
                    chunks = min(n, 4)
                for k in range(chunks):
                    a, b = n * k // chunks, n * (k + 1) // chunks
                    if b > a:
                        jobs.append((hn, exe, pre, name, a, b))
            if only is not None and found != set(only):
                raise RuntimeError("missing sections %s" % (set(only) - found))
            if not found:
                raise RuntimeError("harness %s lists no sections" % hn)
        # long sections first is unknown; interleave instead
        jobs.sort(key=lambda j: (j[4] != 0, j[3]))
        return jobs

    def one(self, job, idx):
        hn, exe, pre, sec, a, b = job
        h = HARNESSES[hn]
        wd = os.path.join(self.tmp, "w%d" % idx)
        os.makedirs(wd)
        res = []
        pos = a
        tries = 0
        while pos < b and tries < 4:
            out, stf, er = (os.path.join(wd, x + str(tries)) for x in ("o", "s", "e"))
            cmd = pre + [exe, "--section", sec, "--from", str(pos), "--to", str(b), "--seed", str(self.seed),
                         "--out", out, "--status", stf] + (["--thorough"] if self.tier == "thorough" else [])
            rc = run_proc(cmd, wd, env_for(), er)
            if rc is None:
                res.append(("inconclusive", sec, "wall-clock watchdog"))
                break
            if rc in (0, 1) and os.path.exists(out):
                res.append(("ok", sec, json.load(open(out)), job))
                break
            if rc == 2:
                res.append(("error", sec, open(er, errors="replace").read()[-2000:]))
                break
            # crash / hang
            try:
                st = open(stf, errors="replace").read().split("\n")
                case = int(st[0])
                desc = st[1] if len(st) > 1 else ""
            except Exception:
                case, desc = pos, ""
            if rc == 97 and sec in self.hung:
                break
            if rc == 97:
                # confirm once from a fresh process
                rc2 = run_proc(pre + [exe, "--section", sec, "--from", str(case), "--to", str(case + 1), "--seed",
                                      str(self.seed), "--status", stf] +
                               (["--thorough"] if self.tier == "thorough" else []), wd, env_for(), er + "b")
                if rc2 != 97:
                    res.append(("inconclusive", sec, "hang not reproduced at case %d" % case))
                    break
                else:
                    self.hung.add(sec)
                    res.append(("viol", sec, "hang", case, "operation does not terminate [%s]" % desc, job, ""))
            else:
                key, txt = crash_key(er, rc)
                res.append(("viol", sec, key, case, "%s [%s]" % (key, desc.strip("\0")), job, txt))
            tries += 1
            pos = case + 1
        return res

    def go(self):
        jobs = self.jobs()
        with cf.ThreadPoolExecutor(NPROC) as ex:
            futs = [ex.submit(self.one, j, i) for i, j in enumerate(jobs)]
            for f in futs:
                for r in f.result():
                    if r[0] == "ok":
                        d, job = r[2], r[3]
                        self.cases += d["cases"]
                        self.events += d["counters"].get("region_balance_observations", 0) + d["counters"].get("heap_balance_runs", 0) if self.spec.get("region_only") else d["events"]
                        self.distinct |= {(r[1], x) for x in d["distinct"]}
                        for k, v in d["counters"].items():
                            self.counters[k] = self.counters.get(k, 0) + v
                        self.sections[r[1]] = self.sections.get(r[1], 0) + d["cases"]
                        if job[4] == 0:
                            self.samples += d["samples"][:1]
                        for v in d["viol"]:
                            if self.accept_key(v["key"]):
                                self.viol.append(dict(section=r[1], key=v["key"], case=v["case"], msg=v["msg"], job=job, log=""))
                    elif r[0] == "viol":
                        if self.spec.get("region_only"):
                            self.inconclusive.append("%s: %s" % (r[1], r[2]))
                        else:
                            self.viol.append(dict(section=r[1], key=r[2], case=r[3], msg=r[4], job=r[5], log=r[6]))
                    elif r[0] == "inconclusive":
                        self.inconclusive.append("%s: %s" % (r[1], r[2]))
                    else:
                        raise RuntimeError("harness error in %s: %s" % (r[1], r[2]))

    def py(self):
        """Python-side monitors (bindings)."""
        for script in self.spec.get("py", []):
            n = NPROC if self.tier == "quick" else NPROC * 4

            def one(k):
                e = py_env()
                out = os.path.join(self.tmp, "py%d.json" % k)
                er = os.path.join(self.tmp, "py%d.err" % k)
                rc = run_proc(["/usr/bin/python3", os.path.join(VERIF, "h", script), str(self.seed), str(k), self.tier, out],
                              self.tmp, e, er)
                return k, rc, out, er
            with cf.ThreadPoolExecutor(NPROC) as ex:
                for k, rc, out, er in ex.map(one, range(n)):
                    job = (script, script, [], script, k, k + 1)
                    if rc is None:
                        self.inconclusive.append("%s: watchdog" % script)
                    elif rc in (0, 1) and os.path.exists(out):
                        d2 = json.load(open(out))
                        self.cases += d2["cases"]; self.events += d2["events"]
                        self.distinct |= {(script, x) for x in d2["distinct"]}
                        for kk, v in d2.get("counters", {}).items():
                            self.counters[kk] = self.counters.get(kk, 0) + v
                        if k == 0:
                            self.samples += d2["samples"][:2]
                        for v in d2["viol"]:
                            self.viol.append(dict(section=script, key=v["key"], case=k, msg=v["msg"], job=job, log=""))
                    elif rc == 2:
                        raise RuntimeError("python monitor error: " + open(er, errors="replace").read()[-3000:])
                    else:
                        key, txt = crash_key(er, rc)
                        self.viol.append(dict(section=script, key=key, case=k, msg=key, job=job, log=txt))


def main():
    if sys.argv[1] == "--replay":
        r = json.load(open(sys.argv[2]))
        B.build(r["flavour"], [h for h in HARNESSES.values() if h["exe"] == r["exe"]])
        if r["exe"].endswith(".py"):
            out = "/tmp/vk_replay_%d.json" % os.getpid()
            rc = subprocess.run(["/usr/bin/python3", os.path.join(VERIF, "h", r["exe"]), str(r["seed"]), str(r["case"]), r["tier"], out], env=py_env()).returncode
            if os.path.exists(out):
                print(json.dumps(json.load(open(out))["viol"], indent=1)); os.unlink(out)
            sys.exit(rc)
        exe = os.path.join(B.BUILD, r["flavour"], r["exe"])
        pre = tsan_prefix() if r["flavour"] == "tsan" else []
        cmd = pre + [exe, "--section", r["section"], "--from", str(r["case"]), "--to", str(r["case"] + 1),
                     "--seed", str(r["seed"])] + (["--thorough"] if r["tier"] == "thorough" else [])
        print(" ".join(cmd))
        sys.exit(subprocess.run(cmd, env=env_for()).returncode)
    prop, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    r = Run(prop, tier, seed)
    try:
        hs = [h[0] if isinstance(h, tuple) else h for h in r.spec["harnesses"]]
        byfl = {}
        for h in hs:
            byfl.setdefault(HARNESSES[h]["flavour"], []).append(HARNESSES[h])
        for fl, lst in byfl.items():
            B.build(fl, lst)
        if r.spec.get("py"):
            B.build("pyasan", [])
        tb = time.time()
        r.go()
        r.py()
    except RuntimeError as ex:
        print("ERROR property=%s %s" % (prop, ex))
        shutil.rmtree(r.tmp, ignore_errors=True)
        sys.exit(2)
    known = load_known(prop)
    seen, new, knownhit = set(), [], set()
    for v in r.viol:
        k = "%s/%s" % (v["section"], v["key"])
        if k in seen:
            continue
        seen.add(k)
        hit = [x for x in known if x[0] == k]
        if hit:
            knownhit.add(hit[0])
        else:
            new.append((k, v))
    for k, what in sorted(knownhit):
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    viols = []
    for i, (k, v) in enumerate(new):
        os.makedirs(OUT, exist_ok=True)
        h = HARNESSES.get(v["job"][0], {})
        path = os.path.join(OUT, "%s-%s-%d.json" % (prop, re.sub(r"[^\w]+", "_", k)[:80], seed))
        json.dump(dict(property=prop, key=k, flavour=h.get("flavour", "pyasan"), exe=h.get("exe", v["job"][0]),
                       section=v["section"], case=v["case"], seed=seed, tier=tier, msg=v["msg"], log=v["log"]),
                  open(path, "w"), indent=1)
        viols.append(dict(key=k, case=v["case"], replay=path, message=v["msg"][:600]))
        if i < 40:
            print("  %s case=%s %s" % (k, v["case"], v["msg"][:300]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=r.events, distinct_nontrivial=len(r.distinct),
                            rule=r.spec["rule"], samples=r.samples[:8] or ["(none)"],
                            cases=r.cases, sections=r.sections, counters=r.counters,
                            inconclusive=r.inconclusive),
              wall_s=round(time.time() - t0, 2),
              assumptions=r.spec.get("assumptions", []),
              violations=len(viols), violation_list=viols)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    shutil.rmtree(r.tmp, ignore_errors=True)
    print("%s %s seed=%d: cases=%d observations=%d distinct=%d violations=%d inconclusive=%d build=%.1fs total=%.1fs" % (
        prop, tier, seed, r.cases, r.events, len(r.distinct), len(new), len(r.inconclusive), tb - t0, time.time() - t0))
    if new:
        sys.exit(1)
    if r.events == 0 or not r.distinct:
        print("ERROR property=%s the monitors observed nothing" % prop)
        sys.exit(2)
    if r.inconclusive and not r.spec.get("region_only"):
        for x in r.inconclusive:
            print("INCONCLUSIVE", x)
        sys.exit(3)
    sys.exit(0)


if __name__ == "__main__":
    main()
