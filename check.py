#!/usr/bin/env python3
"""Driver of the runtime monitors.

  check.py --setup                      check the tool chain, warm the object cache
  check.py C05 [--tier quick|thorough]  decide one property on /repo's working tree
  check.py --replay FILE                run one recorded case again, verbosely

Exit: 0 held on everything explored; 1 violation (VIOLATION line); 2 harness or build error;
3 out of time / inconclusive.
"""
import argparse, hashlib, json, os, re, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(ROOT, "build"))
HARNESS = os.path.join(ROOT, "harness")
SHIM = os.path.join(ROOT, "shim")
EVID = os.path.join(ROOT, "evidence")
REPLAYS = os.path.join(ROOT, "replays")
JOBS = int(os.environ.get("VERIF_JOBS", str(min(8, os.cpu_count() or 2))))
HANG_S = 60
T0 = time.time()
DEADLINE = {"quick": 800, "thorough": 6 * 3600}

# binary -> properties it has workloads for
BINS = json.load(open(os.path.join(HARNESS, "bins.json")))

SLOW = ["h_steering", "gp_"]
COMMON = ["-g1", "-fno-strict-aliasing", "-w", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS", "-UNDEBUG",
          "-include", os.path.join(SHIM, "prelude.hpp"), "-I" + SHIM, "-I" + os.path.join(REPO, "include"),
          "-I" + HARNESS, "-isystem", "/usr/include/eigen3"]
MODES = {
    # vptr is off: the A* node array is raw storage whose elements are assigned, never constructed
    "asan": dict(cxx="clang++", flags=["-O1", "-ftrivial-auto-var-init=pattern", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize=vptr,function",
                 "-fno-sanitize-recover=all"]),
    "tsan": dict(cxx="clang++", flags=["-O1", "-fsanitize=thread"]),
    "plain": dict(cxx="g++", flags=["-O1"]),
}
ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=77:detect_leaks=%d:detect_stack_use_after_return=1:strict_init_order=1:"
                    "hard_rss_limit_mb=3500:max_allocation_size_mb=2500:malloc_fill_byte=203:max_malloc_fill_size=1000000:"
                    "max_free_fill_size=4096:allocator_may_return_null=0:handle_abort=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=4",
}

class HarnessError(Exception):
    pass

def sh_hash(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]

def tree_hash(d, pats=(".h", ".hpp", ".hh", ".hxx", ".inl", ".ipp", ".tpp", ".txx", ".json")):
    h = hashlib.sha256()
    for base, dirs, files in os.walk(d):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(pats):
                p = os.path.join(base, f)
                h.update(os.path.relpath(p, d).encode() + b"\0" + open(p, "rb").read() + b"\0")
    return h.hexdigest()

def lib_sources():
    """The library's sources: what CMakeLists.txt compiles into the library."""
    txt = open(os.path.join(REPO, "CMakeLists.txt")).read()
    txt = "\n".join(l.split("#")[0] for l in txt.splitlines())
    srcs = []
    for m in re.finditer(r"src/[\w/.+-]+\.(?:cpp|cc|cxx)", txt):
        s = m.group(0)
        if s not in srcs and os.path.exists(os.path.join(REPO, s)):
            srcs.append(s)
    if not srcs:
        raise HarnessError("no library sources found in CMakeLists.txt")
    return srcs

def compile_all(mode, bins):
    """Compile the library and the given harness binaries; returns {bin: path}."""
    m = MODES[mode]
    os.makedirs(BUILD, exist_ok=True)
    hdr = tree_hash(os.path.join(REPO, "include")) + tree_hash(os.path.join(REPO, "src")) + tree_hash(SHIM) + tree_hash(HARNESS)
    jobs = {}
    def obj(src, std, extra=()):
        flags = m["flags"] + ["-std=" + std] + COMMON + list(extra)
        key = sh_hash(m["cxx"], " ".join(flags), hdr, src, open(src, "rb").read())
        out = os.path.join(BUILD, "obj", mode, os.path.basename(src) + "." + key + ".o")
        jobs[out] = [m["cxx"]] + flags + ["-c", src, "-o", out]
        return out
    os.makedirs(os.path.join(BUILD, "obj", mode), exist_ok=True)
    lib = [obj(os.path.join(REPO, s), "c++11") for s in lib_sources()]
    mains = obj(os.path.join(HARNESS, "main.cpp"), "c++14")
    hs = {b: [obj(os.path.join(HARNESS, s), "c++14") for s in [b + ".cpp"] + BINS[b].get("sources", [])] for b in bins}
    # longest compilations first
    weight = lambda o: next((i for i, n in enumerate(SLOW) if os.path.basename(o).startswith(n)), len(SLOW))
    todo = [o for o in sorted({o for l in hs.values() for o in l}, key=weight) + [mains] + lib if not os.path.exists(o)]
    def run(o):
        tmp = o + ".tmp%d" % os.getpid()
        cmd = list(jobs[o]); cmd[-1] = tmp
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise HarnessError("compile failed: %s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-3000:]))
        os.replace(tmp, o)
    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(run, todo))
    res = {}
    def link(b):
        exe = os.path.join(BUILD, mode, b + "." + sh_hash(mains, *(hs[b] + lib)))
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        if not os.path.exists(exe):
            tmp = exe + ".tmp%d" % os.getpid()
            arch = exe + ".a%d" % os.getpid()
            subprocess.run(["ar", "crs", arch] + lib, check=True)
            san = [f for f in m["flags"] if f.startswith("-fsanitize") or f.startswith("-fno-sanitize")]
            cmd = [m["cxx"]] + san + ["-o", tmp] + hs[b] + [mains, arch,
                   "-lboost_thread", "-lboost_system", "-lpthread"]
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            os.unlink(arch)
            if r.returncode:
                raise HarnessError("link failed: %s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-3000:]))
            os.replace(tmp, exe)
        return b, exe
    with ThreadPoolExecutor(JOBS) as ex:
        for b, exe in ex.map(link, bins):
            res[b] = exe
    return res

def prune_cache(limit=3 << 30):
    ents = []
    for base, _, files in os.walk(BUILD):
        for f in files:
            p = os.path.join(base, f)
            try:
                s = os.stat(p)
                ents.append((s.st_mtime, s.st_size, p))
            except OSError:
                pass
    total = sum(e[1] for e in ents)
    for mt, sz, p in sorted(ents):
        if total <= limit:
            break
        if time.time() - mt > 1800:
            try:
                os.unlink(p)
                total -= sz
            except OSError:
                pass

def report_key(txt):
    """Classify a sanitizer / assertion / valgrind report; returns (key, summary) or None."""
    m = re.search(r"([\w./+-]+):(\d+): .*: Assertion [`'](.*)' failed", txt)
    if m:
        f = m.group(1)
        return "assert:%s:%s" % (os.path.basename(f), m.group(3)[:120]), m.group(0)
    frame = ""
    for fm in re.finditer(r"#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?):(\d+)", txt):
        if "/include/cslibs_path_planning" in fm.group(2) or fm.group(2).startswith(REPO):
            frame = os.path.basename(fm.group(2)) + ":" + re.sub(r"\(.*", "", fm.group(1))
            break
    m = re.search(r"(\S+?):(\d+):\d+: runtime error: (.*)", txt)
    if m:
        msg = re.sub(r"-?\d[\d.e+-]*", "N", m.group(3))
        return "ubsan:%s:%s:%s" % (os.path.basename(m.group(1)), msg[:80], frame), m.group(0)
    m = re.search(r"ERROR: (\w+Sanitizer): ?(\S+)(.*)", txt)
    if m and m.group(2) != "ABRT":
        return "asan:%s:%s" % (m.group(2), frame), m.group(0)
    m = re.search(r"WARNING: ThreadSanitizer: (.*?) \(pid", txt)
    if m:
        loc = re.search(r"Location is (global '[^']*'|heap block|stack|TLS)", txt)
        fs = []
        for fm in re.finditer(r"#\d+ (.+?) (/\S+?):(\d+)", txt.split("Location is")[0].split(" created by ")[0]):
            if "/cslibs_path_planning" in fm.group(2) or fm.group(2).startswith(REPO):
                fs.append(os.path.basename(fm.group(2)) + ":" + re.sub(r"[(<].*", "", fm.group(1)))
        return "tsan:%s:%s" % (m.group(1), fs[0] if fs else ""), m.group(0) + " in " + ", ".join(fs[:4]) + (" on " + loc.group(1) if loc else "")
    m = re.search(r"==\d+==\s+((?:Conditional|Use of|Invalid|Syscall|Source and dest|Mismatched).*)", txt)
    if m:
        fr = re.search(r"(?:at|by) 0x[0-9A-F]+: (.+?) \((\w+\.\w+):(\d+)\)", txt)
        return "memcheck:%s:%s" % (re.sub(r"\d+", "N", m.group(1))[:60], (fr.group(2) + ":" + fr.group(1).split("(")[0]) if fr else ""), m.group(1)
    m = re.search(r"terminate called.*|terminating (?:due|with).*", txt)
    if m:
        return "terminate:" + m.group(0)[:100], m.group(0)
    m = re.search(r"ERROR: (\w+Sanitizer): ?(\S+)(.*)", txt)
    if m:
        return "asan:%s:%s" % (m.group(2), frame), m.group(0)
    return None

class Runner:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.lock = threading.Lock()
        self.viol = []         # (workload, case, key, msg, input, bin, mode, wlprop)
        self.events, self.samples, self.rules = {}, [], []
        self.hashes = set()
        self.evals = 0
        self.per = {}
        self.errors = []
        self.only_memory = False
        self.tmp = os.path.join(BUILD, "run.%d" % os.getpid())
        os.makedirs(self.tmp, exist_ok=True)
        self.n = 0

    def env(self, leaks=False):
        e = dict(os.environ)
        for k, v in ENV.items():
            e[k] = v % (1 if leaks else 0) if "%d" in v else v
        if leaks:
            e["VF_LEAKS"] = "1"
            e["LSAN_OPTIONS"] = "print_suppressions=0"
        return e

    def spawn(self, exe, wl, frm, to, step, wrapper=(), leaks=False, hang=HANG_S, maxfail=3):
        """Run one worker to its end; returns dict(rc, recs, stderr, at, hung)."""
        with self.lock:
            self.n += 1
            base = os.path.join(self.tmp, "w%d" % self.n)
        out, prog, err = base + ".out", base + ".prog", base + ".err"
        cmd = list(wrapper) + [exe, "--run", wl["prop"], wl["name"], "--seed", str(self.seed), "--from", str(frm), "--to", str(to),
               "--step", str(step), "--out", out, "--progress", prog, "--maxfail", str(maxfail)]
        if self.tier == "thorough":
            cmd.append("--thorough")
        with open(err, "wb") as ef:
            p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=ef, env=self.env(leaks), cwd=self.tmp)
        last, since, hung = None, time.time(), False
        while True:
            try:
                p.wait(1.0)
                break
            except subprocess.TimeoutExpired:
                pass
            cur = self.read_progress(prog)
            if cur != last:
                last, since = cur, time.time()
            elif time.time() - since > hang:
                hung = True
                p.kill(); p.wait()
                break
            if time.time() - T0 > DEADLINE[self.tier]:
                p.kill(); p.wait()
                raise TimeoutError("out of time in workload " + wl["name"])
        recs = []
        try:
            for line in open(out):
                try:
                    recs.append(json.loads(line))
                except ValueError:
                    pass
        except OSError:
            pass
        se = open(err, "rb").read().decode(errors="replace")
        at = self.read_progress(prog)
        for f in (out, prog, err):
            try:
                os.unlink(f)
            except OSError:
                pass
        return dict(rc=p.returncode, recs=recs, err=se, at=at, hung=hung)

    @staticmethod
    def read_progress(f):
        try:
            b = open(f, "rb").read(8)
            return int.from_bytes(b, "little", signed=True) if len(b) == 8 else None
        except OSError:
            return None

    def violation(self, wl, case, key, msg, inp, binname, mode):
        with self.lock:
            self.viol.append(dict(workload=wl["name"], wlprop=wl["prop"], case=case, key=key, msg=msg, input=inp, bin=binname, mode=mode))

    def worker(self, exe, binname, mode, wl, frm, to, step, wrapper=(), leaks=False):
        pos, crashes = frm, 0
        hang = HANG_S * (10 if wrapper else 1)
        while pos < to:
            r = self.spawn(exe, wl, pos, to, step, wrapper, leaks, hang)
            done = None
            for rec in r["recs"]:
                if rec.get("fail"):
                    if not self.only_memory:
                        self.violation(wl, rec["case"], rec["key"], rec["msg"], rec["in"], binname, mode)
                elif rec.get("leak"):
                    k = report_key(r["err"])
                    fr = re.search(r"in (\S+).*?(/\S*(?:src|include)/\S+?):(\d+)", r["err"])
                    self.violation(wl, to, "leak:" + wl["name"], "memory leak reported by LeakSanitizer:\n" + r["err"][-3000:], "", binname, mode)
                elif rec.get("done"):
                    done = rec
            if done is not None:
                with self.lock:
                    self.evals += done["evaluations"]
                    p = self.per.setdefault(wl["name"] + ("" if mode == "asan" else "@" + mode), dict(cases=0, nontrivial=0))
                    p["cases"] += done["evaluations"]
                    p["nontrivial"] += len(done["hashes"])
                    self.hashes.update((wl["name"], h) for h in done["hashes"])
                    for k, v in done["events"].items():
                        self.events[k] = self.events.get(k, 0) + v
                    if sum(1 for s in self.samples if s.startswith(wl["name"] + " ")) < 2:
                        self.samples += [wl["name"] + " " + s for s in done["samples"][:1]]
                if r["rc"] != 0:
                    k = report_key(r["err"])
                    if k:
                        self.violation(wl, to, k[0], k[1] + "\n" + r["err"][-3000:], "", binname, mode)
                    else:
                        self.errors.append("worker exit %s: %s" % (r["rc"], r["err"][-500:]))
                return
            at = r["at"]
            if at is None or at < pos:
                self.errors.append("worker of %s died (rc %s) before/after its cases: %s" % (wl["name"], r["rc"], r["err"][-1500:]))
                return
            with self.lock:
                self.evals += (at - pos) // step + 1
            if r["hung"] or r["rc"] == -9:
                # run the case again alone before believing it
                r2 = self.spawn(exe, wl, at, at + 1, 1, wrapper, leaks, hang * 1.5)
                if r2["hung"] and not self.only_memory:
                    self.violation(wl, at, "hang:" + wl["name"], "case makes no progress (killed after %ds, twice)" % hang, "", binname, mode)
                elif r2["rc"] != 0:
                    k = report_key(r2["err"])
                    if k:
                        self.violation(wl, at, k[0], k[1] + "\n" + r2["err"][-3000:], "", binname, mode)
                    else:
                        self.errors.append("worker killed: " + r2["err"][-500:])
                        return
            else:
                k = report_key(r["err"])
                if not k and r["rc"] < 0:
                    k = ("signal:%d" % -r["rc"], "killed by signal %d" % -r["rc"])
                if not k and "hard rss limit exhausted" in r["err"]:
                    k = ("memory:unbounded", "memory grows without bound (over 3.5 GB)")
                if k:
                    self.violation(wl, at, k[0], k[1] + "\n" + r["err"][-3000:], "", binname, mode)
                else:
                    self.errors.append("worker exit %s at case %s of %s: %s" % (r["rc"], at, wl["name"], r["err"][-1500:]))
                    return
            crashes += 1
            if crashes >= 3:
                return
            pos = at + step

    def run_workloads(self, items, counts, wrapper=(), leaks=False):
        """items: [(exe, bin, mode, workload)]; counts: workload -> number of cases."""
        tasks = []
        for exe, b, mode, wl in items:
            n = counts(wl)
            k = min(JOBS, n)
            for i in range(k):
                tasks.append((exe, b, mode, wl, i, n, k))
        with ThreadPoolExecutor(JOBS) as ex:
            futs = [ex.submit(self.worker, *t, wrapper=wrapper, leaks=leaks) for t in tasks]
            for f in futs:
                f.result()

def list_workloads(exe, mode):
    e = dict(os.environ); e["ASAN_OPTIONS"] = "detect_leaks=0"
    r = subprocess.run([exe, "--list"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e)
    if r.returncode:
        raise HarnessError("cannot list workloads of %s: %s" % (exe, r.stderr.decode()[-500:]))
    return [json.loads(l) for l in r.stdout.decode().splitlines() if l.startswith("{")]

def known_findings():
    res = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
            if m:
                res.append((m.group(1), m.group(2), m.group(3)))
    return res

def run_property(prop, tier, seed):
    memory = prop == "C33"
    bins = list(BINS) if memory else [b for b in BINS if prop in BINS[b]["props"]]
    if not bins:
        raise HarnessError("no harness for " + prop)
    R = Runner(prop, tier, seed)
    try:
        if memory:
            R.only_memory = True
            asan_bins = [b for b in bins if "asan" in BINS[b].get("modes", ["asan"])]
            exes = compile_all("asan", asan_bins)
            items = [(exes[b], b, "asan", w) for b in asan_bins for w in list_workloads(exes[b], "asan")]
            R.seed = seed + 7919
            R.rules = ["every workload of every other check, re-run with other seeds and leak checking (cases counted non-trivial by their own rules)",
                       "the same workloads, fewer cases, under valgrind memcheck"]
            div = 3 if tier == "quick" else 1
            R.run_workloads(items, lambda w: max(4, w[tier] // div), leaks=True)
            pl = compile_all("plain", asan_bins)
            items = [(pl[b], b, "plain", w) for b in asan_bins for w in list_workloads(pl[b], "plain") if w["mem"] > 0]
            mult = 1 if tier == "quick" else 10
            R.run_workloads(items, lambda w: w["mem"] * mult,
                            wrapper=["valgrind", "-q", "--error-exitcode=9", "--exit-on-first-error=yes", "--leak-check=no",
                                     "--suppressions=" + os.path.join(ROOT, "valgrind.supp")])
        else:
            items = []
            for b in bins:
                for mode in BINS[b].get("modes", ["asan"]):
                    exe = compile_all(mode, [b])[b]
                    items += [(exe, b, mode, w) for w in list_workloads(exe, mode) if w["prop"] == prop]
            R.rules = [w["name"] + ": " + w["rule"] for _, _, _, w in items]
            R.run_workloads(items, lambda w: w[tier])
    finally:
        shutil.rmtree(R.tmp, ignore_errors=True)
    return R

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--replay")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if a.setup:
        for t in ("clang++", "g++", "valgrind", "ar"):
            if not shutil.which(t):
                print("missing tool", t); return 2
        compile_all("asan", list(BINS)[:1])
        print("setup ok")
        return 0
    if a.replay:
        r = json.load(open(a.replay))
        exe = compile_all(r["mode"], [r["bin"]])[r["bin"]]
        R = Runner(r["property"], r["tier"], r["seed"])
        cmd = [exe, "--run", r["wlprop"], r["workload"], "--seed", str(r["seed"]), "--from", str(r["case"]), "--to", str(r["case"] + 1), "--verbose"]
        if r["tier"] == "thorough":
            cmd.append("--thorough")
        if r["mode"] == "plain":
            cmd = ["valgrind", "-q", "--error-exitcode=9", "--suppressions=" + os.path.join(ROOT, "valgrind.supp")] + cmd
        shutil.rmtree(R.tmp, ignore_errors=True)
        return subprocess.run(cmd, env=R.env()).returncode
    try:
        R = run_property(a.prop, a.tier, seed)
    except HarnessError as e:
        print("HARNESS ERROR:", e); return 2
    except TimeoutError as e:
        print("INCONCLUSIVE:", e); return 3
    known, fresh = [], []
    kf = known_findings()
    for v in R.viol:
        hit = [k for k in kf if k[0] == a.prop and k[1] == v["key"]]
        (known if hit else fresh).append(v)
    for k in kf:
        if k[0] == a.prop:
            print("KNOWN-FINDING: property=%s %s" % (k[0], k[2]))
    os.makedirs(EVID, exist_ok=True)
    ev = dict(property=a.prop, tier=a.tier, seed=seed, level="exploration",
              coverage=dict(evaluations=R.evals, distinct_nontrivial=len(R.hashes), rule=" | ".join(R.rules),
                            samples=R.samples[:12], workloads=R.per, observed_events=R.events),
              assumptions=["stand-ins for the absent package cslibs_navigation_utilities (angle helpers, re-keyable priority set, segment intersection)"],
              wall_s=round(time.time() - T0, 2), violations=len(fresh))
    json.dump(ev, open(os.path.join(EVID, a.prop + ".json"), "w"), indent=1)
    prune_cache()
    if fresh:
        os.makedirs(REPLAYS, exist_ok=True)
        fresh.sort(key=lambda v: (v["key"], v["case"]))
        seen = {}
        for v in fresh:
            seen.setdefault(v["key"], []).append(v)
        for key, vs in seen.items():
            v = vs[0]
            path = os.path.join(REPLAYS, "%s-%s-%d.json" % (a.prop, v["workload"], v["case"]))
            v.update(property=a.prop, tier=a.tier, seed=R.seed)
            json.dump(v, open(path, "w"), indent=1)
            print("  [%s] %s case %d (%d cases): %s" % (key, v["workload"], v["case"], len(vs), v["msg"][:600].replace("\n", "\n    ")))
            if v["input"]:
                print("    input: " + v["input"][:600].replace("\n", " "))
            print("VIOLATION property=%s replay=%s" % (a.prop, path))
        return 1
    if R.errors:
        print("HARNESS ERROR:", R.errors[0]); return 2
    if R.evals == 0 or len(R.hashes) < 2:
        print("INCONCLUSIVE: nothing observed"); return 3
    print("%s held on %d executions (%d distinct non-trivial), %.1f s; events: %s" % (a.prop, R.evals, len(R.hashes), time.time() - T0,
          ", ".join("%s=%d" % e for e in sorted(R.events.items()))))
    return 0

sys.exit(main())
