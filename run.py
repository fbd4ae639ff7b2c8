#!/usr/bin/env python3
"""Driver: run.py <property> [--tier quick|thorough] [--replay FILE] [--keep]

Compiles the explorer(s) of a property against the current tree of /repo, runs
them sharded over all cores, confirms every reported violation by replaying it,
writes evidence/<property>.json and prints VIOLATION / KNOWN-FINDING lines.
Exit: 0 held on everything explored, 1 violation, 2 error of the check itself.
"""
import argparse, atexit, concurrent.futures as cf, hashlib, json, os, re, shutil
import signal, subprocess, sys, tempfile, threading, time, struct, importlib.util

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SSP_REPO", "/repo")
CORES = min(8, os.cpu_count() or 8)
sys.path.insert(0, HERE)
from checks import CHECKS, CheckError  # noqa: E402


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **kw)


class Run:
    def __init__(self, pid, tier, keep=False):
        self.pid, self.tier, self.keep = pid, tier, keep
        self.spec = CHECKS[pid]
        self.t0 = time.time()
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        self.tmp = tempfile.mkdtemp(prefix="ssp-%s-" % pid.lower(), dir=base)
        atexit.register(self.cleanup)
        self.extra = {}      # extra coverage entries
        self.hdr = {}

    def cleanup(self):
        if not self.keep:
            shutil.rmtree(self.tmp, ignore_errors=True)

    # ---------------------------------------------------------------- build
    def header_flags(self, part):
        kind = part.get("header", "include")
        if kind == "include":
            return ["-I%s/include" % REPO, "-DSSP_HEADER=<ss/parser.hpp>"]
        if kind == "include_noff":
            return ["-I%s/include" % REPO, "-DSSP_DISABLE_FAST_FLOAT", "-DSSP_HEADER=<ss/parser.hpp>"]
        if kind == "single":
            return ['-DSSP_HEADER="%s/ssp.hpp"' % REPO]
        if kind == "all":
            return ["-I%s/include" % REPO, '-DSSP_SINGLE="%s/ssp.hpp"' % REPO, '-DSSP_GENERATED="%s"' % os.path.join(self.tmp, "generated", "ssp.hpp")]
        if kind == "generated":
            path = os.path.join(self.tmp, "generated", "ssp.hpp")
            return ['-DSSP_HEADER="%s"' % path]
        raise CheckError("unknown header kind " + kind)

    def prepare(self):
        if any(p.get("header") in ("generated", "all") for p in self.spec["parts"]):
            os.makedirs(os.path.join(self.tmp, "generated"), exist_ok=True)
            r = sh([sys.executable, "script/single_header_generator.py"], cwd=REPO)
            if r.returncode != 0:
                raise CheckError("single header generator failed: " + r.stderr[-800:])
            with open(os.path.join(self.tmp, "generated", "ssp.hpp"), "w") as f:
                f.write(r.stdout)

    def compile_part(self, i):
        part = self.spec["parts"][i]
        out = os.path.join(self.tmp, "bin%d" % i)
        flags = ["-std=c++17", "-w", part.get("opt", "-O1"), "-g0", "-I" + os.path.join(HERE, "harness")]
        flags += self.header_flags(part)
        flags += ["-D" + d for d in part.get("defs", [])] + part.get("flags", [])
        cxx = part.get("cxx", "g++")
        src = os.path.join(HERE, "harness", part["src"])
        cmd = [cxx] + flags + [src, "-o", out] + part.get("libs", [])
        r = sh(cmd)
        if r.returncode != 0:
            raise CheckError("compiling %s %s failed:\n%s" % (part["src"], part.get("defs"), r.stderr[:6000]))
        return out

    def compile_all(self):
        self.prepare()
        with cf.ThreadPoolExecutor(CORES) as ex:
            self.bins = list(ex.map(self.compile_part, range(len(self.spec["parts"]))))

    # ---------------------------------------------------------------- run
    def job(self, part_i, shard, nshards, only=None, hang=None, verbose=False, seq=[0]):
        part = self.spec["parts"][part_i]
        seq[0] += 1
        jid = "%d-%d-%d" % (part_i, shard, seq[0])
        d = os.path.join(self.tmp, "job" + jid)
        os.makedirs(d, exist_ok=True)
        out, state = os.path.join(d, "out.json"), os.path.join(d, "state")
        scratch = os.path.join(d, "scratch")
        os.makedirs(scratch, exist_ok=True)
        cmd = part.get("runner", []) + [self.bins[part_i], "--tier", self.tier, "--shard", str(shard), "--nshards", str(nshards),
               "--out", out, "--state", state, "--scratch", scratch]
        if only is not None:
            cmd += ["--only", str(only)]
        if hang:
            cmd += ["--hang", str(hang)]
        if verbose:
            cmd += ["--verbose", "1"]
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=78:allocator_may_return_null=1:detect_stack_use_after_return=0"
        env["UBSAN_OPTIONS"] = "print_stacktrace=0:halt_on_error=1:exitcode=78"
        env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=78:report_signal_unsafe=0"
        env["VK_KNOWN"] = ",".join(t for t, _, _ in self.known() if t)
        env.update(part.get("env", {}))
        try:
            r = sh(cmd, env=env, cwd=scratch, timeout=self.limit())
            rc, err = r.returncode, r.stderr
        except subprocess.TimeoutExpired as e:
            raise CheckError("job %s exceeded the time limit" % jid)
        cur = 0
        try:
            with open(state, "rb") as f:
                cur = struct.unpack("<Q", f.read(8))[0]
        except Exception:
            pass
        res = None
        if rc == 0:
            with open(out) as f:
                res = json.load(f)
        shutil.rmtree(d, ignore_errors=True)
        return {"rc": rc, "res": res, "cur": cur, "err": err, "part": part_i, "shard": shard, "nshards": nshards}

    def limit(self):
        cap = 840 if self.tier == "quick" else 4 * 3600
        return max(20, cap - (time.time() - self.t0))

    @staticmethod
    def crash_desc(r):
        rc = r["rc"]
        if rc == 77:
            return "does not terminate"
        m = re.search(r"(ERROR: \w+Sanitizer: [^\n]*|runtime error: [^\n]*|WARNING: ThreadSanitizer: [^\n]*|terminate called[^\n]*(\n\s+what[^\n]*)?)", r["err"])
        head = m.group(1) if m else ("killed by signal %d" % -rc if rc < 0 else "exit status %d" % rc)
        head = re.sub(r"0x[0-9a-f]+|==\d+==|\bpid \d+|\(pid=\d+\)", "", head)
        loc = re.findall(r"#\d+ 0x[0-9a-f]+ in ([^\n]*?ss::[^\n(<]*)", r["err"])
        return "crash: " + head + (" in " + loc[0] if loc else "")

    def confirm(self, r, n):
        """re-executes case n alone, then the whole shard; returns (desc, mode)"""
        hang = 15 if r["rc"] == 77 else None
        a = self.job(r["part"], 0, 1, only=n, hang=hang, verbose=True)
        if a["rc"] != 0:
            return self.crash_desc(a) + "\n" + a["err"][-3000:], "case"
        if a["res"]["viols"]:
            return a["res"]["viols"][0]["desc"], "case"
        b = self.job(r["part"], r["shard"], r["nshards"], hang=hang)
        if b["rc"] not in (0,) and b["cur"] == n:
            return self.crash_desc(b) + "\n" + b["err"][-3000:], "shard"
        if b["rc"] == 0:
            for v in b["res"]["viols"]:
                if v["n"] == n:
                    return v["desc"], "shard"
        return None, None

    def explore(self):
        jobs = []
        for i, part in enumerate(self.spec["parts"]):
            ns = part.get("shards", CORES)
            jobs += [(i, s, ns) for s in range(ns)]
        found, totals, results = [], {}, []
        stop = threading.Event()

        def one(j):
            if stop.is_set():
                return None
            r = self.job(*j)
            if r["rc"] != 0 or r["res"]["viols"]:
                stop.set() # enough to decide; running shards still finish
            return r
        with cf.ThreadPoolExecutor(CORES) as ex:
            results = [r for r in ex.map(one, jobs) if r]
        bad = [r for r in results if r["rc"] != 0 or r["res"]["viols"]]
        crashed_unconfirmed = []
        bad.sort(key=lambda r: r["rc"] == 77)   # confirming a hang is slow
        for r in bad[:6]:
            if len(found) >= 3 or (found and r["rc"] == 77):
                break
            cases = [r["cur"]] if r["rc"] != 0 else [v["n"] for v in r["res"]["viols"]]
            for n in cases[:2]:
                if len(found) >= 3:
                    break
                desc, mode = self.confirm(r, n)
                if desc is None:
                    crashed_unconfirmed.append((r, n))
                else:
                    found.append({"part": r["part"], "case": n, "shard": r["shard"], "nshards": r["nshards"],
                                  "mode": mode, "desc": desc})
        if crashed_unconfirmed and not found:
            r, n = crashed_unconfirmed[0]
            raise CheckError("part %d case %d: not reproducible (rc %d)\n%s" % (
                r["part"], n, r["rc"], r["err"][-2000:] or json.dumps(r["res"]["viols"])))
        self.results = [r for r in results if r["rc"] == 0]
        return found

    # ---------------------------------------------------------------- report
    def evidence(self, nviol):
        tot = {k: 0 for k in ("cases", "evals", "states", "transitions", "nontrivial")}
        bounds, samples, outcomes, space = {}, [], 0, {}
        for r in self.results:
            for k in tot:
                tot[k] += r["res"][k]
            outcomes = max(outcomes, r["res"]["outcomes"])
            for k, v in r["res"]["bounds"].items():
                bounds[k] = max(bounds.get(k, 0), v)
            space[r["part"]] = r["res"]["total"]
            samples += [s[:600] for s in r["res"]["samples"]]
        # a few from everywhere
        samples = samples[::max(1, len(samples) // 8)][:9]
        exploring = self.spec["level"] in ("exploration", "fault_enumeration")
        cov = {"evaluations": tot["evals"], "distinct_nontrivial" if exploring else "nontrivial_cases": tot["nontrivial"], "rule": self.spec["rule"],
               "states": tot["states"], "transitions": tot["transitions"],
               "traces_validated_against_impl": tot["cases"],
               "cases_in_bounded_space": sum(space.values()),
               "max_distinct_outcomes_in_a_shard": outcomes,
               "bounds": bounds, "samples": samples or ["-"],
               "exhaustive": tot["cases"] == sum(space.values())}
        if not exploring and tot["evals"] == tot["cases"]:
            del cov["evaluations"]
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
              "level": self.spec["level"], "coverage": cov,
              "assumptions": self.spec.get("assumptions", []), "wall_s": round(time.time() - self.t0, 2),
              "violations": nviol}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        path = os.path.join(HERE, "evidence", self.pid + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(path + ".tmp", path)
        return ev

    def known(self):
        out = []
        try:
            for l in open(os.path.join(HERE, "KNOWN_FINDINGS.txt")):
                # tag: a class of inputs which the explorer recognises; match: of the description
                m = re.match(r"known: property=(\S+) (?:tag=(\S+)|match=/(.*)/) (.*)", l)
                if m and m.group(1) == self.pid:
                    out.append((m.group(2), re.compile(m.group(3)) if m.group(3) else None, m.group(4).strip()))
        except FileNotFoundError:
            pass
        return out

    def report(self, found):
        known = self.known()
        new = []
        for v in found:
            if not any(k and k.search(v["desc"]) for _, k, _ in known):
                new.append(v)
        for _, _, what in known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, what))
        ev = self.evidence(len(new))
        if new:
            rd = os.path.join(HERE, "evidence", "replays")
            os.makedirs(rd, exist_ok=True)
            seen = set()
            for k, v in enumerate(new[:5]):
                part = self.spec["parts"][v["part"]] if v.get("part") is not None else {}
                path = os.path.join("evidence", "replays", "%s-%d.json" % (self.pid, k))
                with open(os.path.join(HERE, path), "w") as f:
                    json.dump({"property": self.pid, "tier": self.tier, "violation": v, "build": part,
                               "replay": "python3 run.py %s --tier %s --replay %s" % (self.pid, self.tier, path)}, f, indent=1)
                print("VIOLATION property=%s replay=%s" % (self.pid, path))
                print("  " + v["desc"].replace("\n", "\n  ")[:3000])
            return 1
        c = ev["coverage"]
        print("%s %s: held on %d cases, %d executions, %d states, %d transitions in %.1fs" % (
            self.pid, self.tier, c.get("traces_validated_against_impl", 0), c.get("evaluations", c.get("traces_validated_against_impl", 0)),
            c.get("states", 0), c.get("transitions", 0), ev["wall_s"]))
        return 0


def main():
    if sys.argv[1:2] == ["--selftest"]:
        # nothing to prebuild: every check compiles what it needs from /repo
        for tool in ("g++",):
            subprocess.run([tool, "--version"], check=True, stdout=subprocess.DEVNULL)
        print("ok: %d checks registered" % len(CHECKS))
        return 0
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    if a.replay:
        with open(a.replay) as f:
            rep = json.load(f)
        tier = rep["tier"]
    run = Run(a.property, tier, a.keep)
    try:
        if run.spec.get("python"):
            mod = importlib.import_module(run.spec["python"])
            found = mod.explore(run, rep["violation"] if a.replay else None)
            if a.replay:
                for v in found:
                    print("VIOLATION property=%s replay=%s\n  %s" % (a.property, a.replay, v["desc"]))
                return 1 if found else 0
            return run.report(found)
        if a.replay:
            v = rep["violation"]
            run.prepare()
            run.bins = [None] * len(run.spec["parts"])
            run.bins[v["part"]] = run.compile_part(v["part"])
            r = {"part": v["part"], "shard": v["shard"], "nshards": v["nshards"], "rc": 0}
            desc, mode = run.confirm(r, v["case"])
            if desc:
                print("VIOLATION property=%s replay=%s\n  %s" % (a.property, a.replay, desc))
                return 1
            print("not reproduced")
            return 0
        run.compile_all()
        tc = time.time() - run.t0
        run.extra["compile_s"] = round(tc, 2)
        return run.report(run.explore())
    except CheckError as e:
        print("CHECK-ERROR %s: %s" % (a.property, e), file=sys.stderr)
        return 2


if __name__ == "__main__":
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(2))
    sys.exit(main())
