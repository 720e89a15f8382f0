#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property by symbolic execution of /repo's code.

The relevant /repo sources are compiled to LLVM IR together with a harness, executed by the
symbolic executor in engine/ (SMT solver: z3), and every candidate counterexample is replayed on a
native AddressSanitizer build of the same sources before it is reported.
Exit 0: held within the bounds.  Exit 1 + VIOLATION line: replayed counterexample.
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
import specs

CLANG = "clang++-18" if shutil.which("clang++-18") else "clang++"
LINK = "llvm-link-18" if shutil.which("llvm-link-18") else "llvm-link"
INC = ["-I" + REPO, "-I" + REPO + "/webm_parser", "-I" + REPO + "/webm_parser/include", "-I" + VERIF + "/harness"]
DEFS = ["-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", "-w"]
IRFLAGS = ["-O1", "-g", "-fno-exceptions", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops",
           "-fno-stack-protector", "-include", VERIF + "/harness/noextern.h", "-emit-llvm", "-c"]
NATFLAGS = ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address", "-fno-sanitize-recover=all",
            "-ftrivial-auto-var-init=pattern", "-DSYMX_NATIVE", "-c"]

def log(*a):
    print(*a, file=sys.stderr, flush=True)

class Slots:
    """Counting semaphore acquired k at a time."""
    def __init__(self, n):
        self.n, self.c = n, threading.Condition()
    def take(self, k):
        with self.c:
            while self.n < k:
                self.c.wait()
            self.n -= k
    def give(self, k):
        with self.c:
            self.n += k
            self.c.notify_all()

class Runner:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.work = "%s/build/run/%s-%s-%d" % (VERIF, prop, tier, os.getpid())
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.ncpu = min(8, os.cpu_count() or 1)
        self.slots = Slots(self.ncpu)
        self.cache, self.lock = {}, threading.Lock()
        self.pool = cf.ThreadPoolExecutor(32)
        self.links = cf.ThreadPoolExecutor(8)   # waits for compiles: a pool of its own
        self.t0 = time.time()

    def once(self, key, fn, pool=None):
        with self.lock:
            f = self.cache.get(key)
            if f is None:
                f = self.cache[key] = (pool or self.pool).submit(fn)
        return f

    def compile(self, src, flags, native):
        key = (src, tuple(flags), native)
        out = "%s/%s.%s" % (self.work, hashlib.md5(repr(key).encode()).hexdigest()[:16], "o" if native else "bc")
        def go():
            cmd = [CLANG] + (NATFLAGS if native else IRFLAGS) + DEFS + INC + flags + [src, "-o", out]
            self.slots.take(1)
            try:
                p = subprocess.run(cmd, capture_output=True, text=True)
            finally:
                self.slots.give(1)
            if p.returncode:
                raise RuntimeError("compile %s: %s" % (src, p.stderr[-3000:]))
            return out
        return self.once(key, go)

    def sources(self, u):
        std = ["-std=c++11"]
        fl = u.get("cflags", [])
        l = [(REPO + "/" + s, std + fl) for s in u["srcs"]]
        d = ["-D%s=%s" % kv for kv in sorted(u["defs"].items())]
        l += [(VERIF + "/harness/" + h, ["-std=c++17"] + fl + d) for h in u["harness"]]
        return l

    def bitcode(self, u):
        objs = [self.compile(s, f, False) for s, f in self.sources(u)]
        objs.append(self.compile(VERIF + "/harness/rt/rt.cc", ["-std=c++17", "-fno-builtin"], False))
        files = [o.result() for o in objs]
        out = "%s/%s.linked.bc" % (self.work, u["name"])
        p = subprocess.run([LINK] + files + ["-o", out], capture_output=True, text=True)
        if p.returncode:
            raise RuntimeError("llvm-link: " + p.stderr[-2000:])
        return out

    def native(self, u):
        def go():
            objs = [self.compile(s, f, True) for s, f in self.sources(u)]
            objs.append(self.compile(VERIF + "/harness/replay.cc", ["-std=c++17"], True))
            files = [o.result() for o in objs]
            out = "%s/%s.native" % (self.work, u["name"])
            p = subprocess.run([CLANG, "-fsanitize=address"] + files + ["-o", out], capture_output=True, text=True)
            if p.returncode:
                raise RuntimeError("native link: " + p.stderr[-2000:])
            return out
        return self.once(("native", u["name"]), go, self.links)

    def run_native(self, exe, path, fill=None, timeout=60):
        env = dict(os.environ)
        opts = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=2048:detect_stack_use_after_return=1"
        if fill is not None:
            opts += ":max_malloc_fill_size=1000000:malloc_fill_byte=%d" % fill
        env["ASAN_OPTIONS"] = opts
        try:
            p = subprocess.run([exe, path], capture_output=True, env=env, timeout=timeout, cwd=self.work)
            return p.returncode, p.stdout.decode("latin1"), p.stderr.decode("latin1")
        except subprocess.TimeoutExpired:
            return "timeout", "", ""

    def explore(self, u):
        bc = self.bitcode(u)
        w = min(u.get("w", self.ncpu), self.ncpu)
        out = "%s/%s.res" % (self.work, u["name"])
        cmd = [VERIF + "/build/engine/symx", bc, "-o", out, "-t", str(u["t"]), "-w", str(w), "--seed", str(self.seed),
               "--repo", REPO + "/", *os.environ.get("VERIF_SYMX", "").split(), "--max-inst", str(u.get("max_inst", 20000000)), "--alloc-cap", str(u.get("alloc_cap", 65536)),
               "--query-timeout", str(u.get("qt", 20000)), "--max-viol", str(u.get("max_viol", 12)), "--mem", str(3200)]
        if u.get("cross"):
            cmd += ["--cross", str(u["cross"])]
        self.slots.take(w)
        t = time.time()
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, errors="replace", timeout=u["t"] + 120)
            rc, err = p.returncode, p.stderr
        except subprocess.TimeoutExpired:
            rc, err = -9, "timeout"
        finally:
            self.slots.give(w)
        r = {"unit": u["name"], "wall_s": round(time.time() - t, 2), "rc": rc, "stderr": err[-2000:], "violations": [],
             "incomplete": {}, "reach": {}, "samples": [], "functions": set(), "ends": {}, "num": {}, "maxq": 0.0}
        for f in glob.glob(out + ".*"):
            if f.endswith(".crash"):
                r["incomplete"]["executor worker ended abnormally"] = 1
                continue
            try:
                j = json.load(open(f))
            except Exception as e:
                r["incomplete"]["unreadable result"] = 1
                continue
            for k, v in j.items():
                if k == "violations":
                    r[k] += v
                elif k == "samples":
                    r[k] += v
                elif k == "functions":
                    r[k] |= set(v)
                elif k in ("ends", "incomplete"):
                    for a, b in v.items():
                        r[k][a] = r[k].get(a, 0) + b
                elif k == "reach":
                    for a, b in v.items():
                        r[k].setdefault(a, {"n": 0, "in": b["in"]})["n"] += b["n"]
                elif k == "max_query_s":
                    r["maxq"] = max(r["maxq"], v)
                else:
                    r["num"][k] = r["num"].get(k, 0) + v
        if rc != 0:
            r["incomplete"]["executor exit code %s" % rc] = 1
        return r

    # -- replay -------------------------------------------------------------
    def confirm(self, u, v, idx):
        """Replays one candidate on the native build; returns a description if it reproduces."""
        exe = self.native(u).result()
        path = "%s/%s.cand%d" % (self.work, u["name"], idx)
        open(path, "w").write(v["inputs"])
        for fill in (None, 0xbe, 0x00, 0xff, 0x01):
            rc, out, err = self.run_native(exe, path, fill, 30)
            if rc == 78 or rc == 79:
                continue
            if rc == 0:
                continue
            if rc == 77:
                m = re.search(r"ASSERT-FAILED: (.*)", out)
                return "assertion failed in replay: " + (m.group(1) if m else "?"), out + err
            if rc == "timeout":
                return "replay does not terminate", ""
            if rc == 99:
                m = re.search(r"AddressSanitizer: ([^\n]*)", err)
                d = m.group(1) if m else ""
                if "requested allocation size" in d or "out-of-memory" in d or "allocation-size-too-big" in d:
                    continue
                return "AddressSanitizer: " + d[:200], out + err
            return "native run ended with %s" % rc, out + err
        return None, ""

    def main(self):
        spec = specs.PROPS[self.prop]
        units = []
        for u in spec["units"]:
            v = dict(u)
            v["defs"] = dict(u.get("defs", {}))
            o = u.get(self.tier)
            if self.tier == "quick" and u.get("thorough_only"):
                continue
            if os.environ.get("VERIF_UNITS") and u["name"] not in os.environ["VERIF_UNITS"].split(","):
                continue
            for k, val in (o or {}).items():
                if k == "defs":
                    v["defs"].update(val)
                else:
                    v[k] = val
            v.setdefault("t", 200 if self.tier == "quick" else 1200)
            units.append(v)
        log("[%s] %s: %d units" % (self.prop, self.tier, len(units)))
        for u in units:  # start native builds early
            self.native(u)
        res, errors = [], {}
        with cf.ThreadPoolExecutor(16) as ex:
            futs = {ex.submit(self.explore, u): u for u in units}
            for f in cf.as_completed(futs):
                u = futs[f]
                try:
                    r = f.result()
                    res.append((u, r))
                    log("[%s] %s: paths=%d killed=%d queries=%d solver=%.1fs wall=%.1fs viol=%d incomplete=%s reach=%s" % (
                        self.prop, u["name"], r["num"].get("paths", 0), r["num"].get("killed", 0), r["num"].get("queries", 0),
                        r["num"].get("solver_s", 0), r["wall_s"], len(r["violations"]), r["incomplete"],
                        {k: v["n"] for k, v in r["reach"].items()}))
                except Exception as e:
                    errors[u["name"]] = str(e)
                    log("[%s] unit %s failed: %s" % (self.prop, u["name"], e))
        res.sort(key=lambda x: x[0]["name"])
        # known findings
        known = []
        kf = VERIF + "/known_findings.txt"
        if os.path.exists(kf):
            for line in open(kf):
                line = line.strip()
                if line.startswith("{"):
                    j = json.loads(line)
                    if j.get("status") == "known" and j["property"] == self.prop:
                        known.append(j)
        shown, reported, unconfirmed, known_hit = 0, [], [], {}
        rdir = VERIF + "/evidence/replay/" + self.prop
        shutil.rmtree(rdir, ignore_errors=True)
        for u, r in res:
            done = set()
            for i, v in enumerate(r["violations"]):
                key = (v["kind"], v["msg"], v["where"])
                if key in done:
                    continue
                if time.time() - self.t0 > (760 if self.tier == "quick" else 7200):
                    break
                if len(reported) >= 8:
                    break
                try:
                    d, out = self.confirm(u, v, i)
                except Exception as e:
                    d, out = None, str(e)
                if not d:
                    unconfirmed.append({"unit": u["name"], "kind": v["kind"], "msg": v["msg"], "where": v["where"], "inputs": v["inputs"][:600]})
                    log("[%s] unconfirmed candidate: %s %s at %s" % (self.prop, v["kind"], v["msg"], v["where"]))
                    continue
                done.add(key)
                hit = None
                for k in known:
                    if k.get("unit", u["name"]) == u["name"] and re.search(k["match"], v["kind"] + "|" + v["msg"] + "|" + v["where"] + "|" + v["stack"]):
                        hit = k
                        break
                if hit:
                    known_hit[hit["what"]] = known_hit.get(hit["what"], 0) + 1
                    continue
                os.makedirs(rdir, exist_ok=True)
                path = "%s/%s-%d.txt" % (rdir, u["name"], i)
                with open(path, "w") as f:
                    f.write("# property %s, unit %s (harness %s, defs %s)\n# %s: %s\n# at %s\n# replay: %s\n" % (
                        self.prop, u["name"], u["harness"], u["defs"], v["kind"], v["msg"], v["where"], d))
                    for l in v["stack"].splitlines():
                        f.write("#   %s\n" % l)
                    f.write(v["inputs"])
                    for l in out.splitlines()[:60]:
                        f.write("# native: %s\n" % l)
                reported.append((u, v, d, path))
        for k in known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        # replay witnesses of fully explored paths on the native build
        validated, mismatched, samples = 0, [], []
        jobs = []
        for u, r in res:
            nmax = u.get("replays", 12 if self.tier == "quick" else 40)
            step = max(1, len(r["samples"]) // nmax)
            for i, s in enumerate(r["samples"][::step][:nmax]):
                jobs.append((u, i, s))
            for s in r["samples"][:2]:
                samples.append({"unit": u["name"], "path_witness": s[:400]})
        def val(j):
            u, i, s = j
            path = "%s/%s.samp%d" % (self.work, u["name"], i)
            open(path, "w").write(s)
            rc, out, err = self.run_native(self.native(u).result(), path, None, 60)
            want = set(l[1:] for l in s.splitlines() if l.startswith("!"))
            got = set(l[6:] for l in out.splitlines() if l.startswith("REACH "))
            return rc == 0 and want == got, rc, want ^ got, (out + err)[-400:], s
        if not reported:
            with cf.ThreadPoolExecutor(self.ncpu) as ex:
                for (u, i, s), fut in [(j, ex.submit(val, j)) for j in jobs]:
                    try:
                        ok, rc, diff, tail, s = fut.result()
                    except Exception as e:
                        ok, rc, diff, tail = False, "error", set(), str(e)
                    if ok:
                        validated += 1
                    else:
                        mismatched.append({"unit": u["name"], "rc": rc, "diff": sorted(diff), "tail": tail, "inputs": s[:800]})
        # evidence
        tot = {}
        for u, r in res:
            for k, v in r["num"].items():
                tot[k] = tot.get(k, 0) + v
        fns = sorted(set(f for u, r in res for f in r["functions"]))
        missing = {}
        for u, r in res:
            m = [l for l in u.get("reach", []) if l not in r["reach"]]
            if m:
                missing[u["name"]] = m
        incomplete = {u["name"]: r["incomplete"] for u, r in res if any(not k.startswith("note:") for k in r["incomplete"])}
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {
                "states": tot.get("paths", 0), "transitions": tot.get("branches", 0) + tot.get("forks", 0),
                "traces_validated_against_impl": validated,
                "samples": samples[:12] or [{"note": "no complete path"}],
                "states_meaning": "complete symbolic paths (each covers every input satisfying its path condition)",
                "transitions_meaning": "symbolic branch decisions and forks taken while exploring them",
                "functions_encoded": fns, "functions_encoded_count": len(fns),
                "bounds": spec.get("bounds", "") if isinstance(spec.get("bounds", ""), str) else spec["bounds"].get(self.tier, ""),
                "outside_bounds": spec.get("outside", ""),
                "queries": int(tot.get("queries", 0)), "queries_unsat": int(tot.get("unsat", 0)), "queries_sat": int(tot.get("sat", 0)),
                "queries_unknown": int(tot.get("unknown", 0)), "solver_s": round(tot.get("solver_s", 0), 2),
                "instructions": int(tot.get("insts", 0)), "assertions_checked": int(tot.get("asserts", 0)),
                "assertions_decided_by_solver": int(tot.get("asserts_sym", 0)), "memory_accesses_checked": int(tot.get("memchecks", 0)),
                "units": [{"name": u["name"], "harness": u["harness"], "defs": u["defs"], "wall_s": r["wall_s"],
                           "paths": int(r["num"].get("paths", 0)), "queries": int(r["num"].get("queries", 0)),
                           "solver_s": round(r["num"].get("solver_s", 0), 2), "ends": r["ends"], "reach": {k: v["n"] for k, v in r["reach"].items()}}
                          for u, r in res],
                "exhausted": not incomplete and not errors, "incomplete": incomplete, "unit_errors": errors,
                "unreached_witness_labels": missing, "unconfirmed_candidates": unconfirmed[:20], "replay_mismatches": mismatched[:10],
                "known_findings_hit": known_hit,
            },
            "assumptions": spec.get("assumptions", []),
            "violations": len(reported),
            "wall_s": round(time.time() - self.t0, 2),
        }
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        tmp = VERIF + "/evidence/.%s.%d" % (self.prop, os.getpid())
        json.dump(ev, open(tmp, "w"), indent=1)
        os.rename(tmp, VERIF + "/evidence/%s.json" % self.prop)
        if os.environ.get("VERIF_KEEP") != "1":
            shutil.rmtree(self.work, ignore_errors=True)
        if mismatched:
            log("[%s] %d witness replays diverged: %s" % (self.prop, len(mismatched), json.dumps(mismatched[:2])[:1500]))
        if missing:
            log("[%s] witness labels not reached: %s" % (self.prop, missing))
        log("[%s] wall %.1fs, paths %d, validated %d, exhausted=%s" % (self.prop, time.time() - self.t0, tot.get("paths", 0), validated, ev["coverage"]["exhausted"]))
        for u, v, d, path in reported:
            print("%s: %s: %s at %s [%s]" % (u["name"], v["kind"], v["msg"], v["where"], d))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        sys.stdout.flush()
        if reported:
            return 1
        if not res:
            log("[%s] no unit could be analysed: %s" % (self.prop, errors))
            return 2
        return 0

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    p = subprocess.run(["make", "-s", "-j8", "-C", VERIF + "/engine"], capture_output=True, text=True)
    if p.returncode:
        log(p.stderr)
        return 2
    r = Runner(prop, tier)
    rc = r.main()
    sys.stdout.flush()
    os._exit(rc)

if __name__ == "__main__":
    sys.exit(main())
