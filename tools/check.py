#!/usr/bin/env python3
"""Runs the check of one property: builds /repo's working tree in the variants the check
needs, runs the harness processes, and turns what their monitors report into the verdict.

usage: check.py ID [--replay FILE]
exit 0: held (known findings are named); 1: VIOLATION; 2: the check itself failed.
"""
import json, os, pathlib, re, resource, shutil, signal, struct, subprocess, sys, tempfile, time, traceback
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))
import vbuild
from checks import CHECKS

VERIF = vbuild.VERIF
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
ENV = {
    "fast": {}, "pat": {}, "zero": {}, "cov": {},
    "asan": {"ASAN_OPTIONS": "detect_leaks=0:hard_rss_limit_mb=6000:detect_stack_use_after_return=1:strict_string_checks=1:allocator_may_return_null=1:abort_on_error=0:exitcode=99",
             "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1"},
    "tsan": {"TSAN_OPTIONS": "halt_on_error=1:exitcode=66:second_deadlock_stack=1"},
}


def bounded():
    # endless allocation ends this process, not its neighbours
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


class Inconclusive(Exception):
    pass


def crash_kind(rc, err):
    if "hard rss limit exhausted" in err:
        return "memory"
    m = re.search(r"SUMMARY: (\w+Sanitizer): (\S+)", err)
    if m:
        m2 = re.search(r"runtime error: ([a-z ]+)", err)
        return m.group(1) + ":" + (m2.group(1).strip().replace(" ", "-")[:50] if m2 else m.group(2))
    m = re.search(r"runtime error: ([a-zA-Z ]+)", err)
    if m:
        return "UBSan:" + m.group(1).strip().replace(" ", "-")[:60]
    if "Assertion" in err and "failed" in err:
        return "assertion"
    if "terminate called" in err or "terminating" in err:
        m = re.search(r"instance of '([^']+)'", err)
        return "uncaught:" + (m.group(1) if m else "exception")
    if rc is not None and rc < 0:
        return signal.Signals(-rc).name
    return "exit%s" % rc


def read_progress(path):
    try:
        b = path.read_bytes()
        return struct.unpack("<Q", b[:8])[0] - 1, b[8:].split(b"\0", 1)[0].decode("utf-8", "replace")
    except Exception:
        return -1, ""


class Run:
    """One harness process and its successors over one shard."""

    def __init__(self, check, step, exe, shard, shards, work, frm=0, just=None, limit=None):
        self.step, self.exe, self.shard, self.shards, self.work = step, exe, shard, shards, work
        self.frm, self.just = frm, just
        self.attempt = 0
        self.crashes = 0
        self.viols, self.summaries, self.distinct, self.notes = [], [], set(), []
        self.limit = limit or step.get("case_timeout", 120)
        self.done = False
        self.images = []
        self.start()

    def start(self):
        self.attempt += 1
        tag = "%s-%d-%d" % (self.step["name"], self.shard, self.attempt)
        if self.just is not None:
            tag += "-j"
        self.out = self.work / (tag + ".jsonl")
        self.prog = self.work / (tag + ".progress")
        self.errf = self.work / (tag + ".err")
        scratch = self.work / (tag + ".scratch")
        scratch.mkdir()
        img = self.work / (tag + ".img")
        self.images.append(img)
        cmd = [str(self.exe), "--out", str(self.out), "--repo", str(vbuild.REPO), "--verif", str(VERIF), "--scratch", str(scratch),
               "--seed", str(SEED), "--progress", str(self.prog), "--shard", str(self.shard), "--shards", str(self.shards),
               "--from", str(self.frm), "--images", str(img)]
        if self.just is not None:
            cmd += ["--just", str(self.just)]
        if THOROUGH:
            cmd += ["--thorough"]
        cmd += self.step.get("args", [])
        env = dict(os.environ); env.update(ENV.get(self.step["variant"], {})); env.update(self.step.get("env", {}))
        env.pop("MALLOC_PERTURB_", None) if "MALLOC_PERTURB_" not in self.step.get("env", {}) else None
        self.cmd = cmd
        with open(self.errf, "wb") as e:
            self.p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=e, stdin=subprocess.DEVNULL, cwd=scratch, env=env, start_new_session=True,
                                      preexec_fn=None if self.step["variant"] in ("asan", "tsan") else bounded)
        self.seen, self.t = None, time.time()

    def collect(self):
        last = None
        if self.out.exists():
            for l in self.out.read_text(errors="replace").splitlines():
                try:
                    j = json.loads(l)
                except ValueError:
                    continue
                if "viol" in j:
                    j["viol"]["step"] = self.step["name"]
                    self.viols.append(j["viol"])
                elif "note" in j:
                    self.notes.append(j["note"])
                elif "summary" in j:
                    last = j["summary"]
        if last is not None:
            self.summaries.append(last)
        d = pathlib.Path(str(self.out) + ".d")
        if d.exists():
            b = d.read_bytes()
            self.distinct.update(struct.unpack("<%dQ" % (len(b) // 8), b[: len(b) // 8 * 8]))
        return last

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()

    def poll(self):
        """True while running."""
        if self.done:
            return False
        rc = self.p.poll()
        idx, what = read_progress(self.prog)
        if rc is None:
            cur = (idx, what)
            if cur != self.seen:
                self.seen, self.t = cur, time.time()
            if time.time() - self.t < self.limit:
                return True
            self.kill()
            self.collect()
            self.hang(idx, what)
        else:
            self.collect()
            if rc == 0:
                self.done = True
                return False
            err = self.errf.read_text(errors="replace")
            if rc == 97 or idx < 0:
                raise Inconclusive("harness %s could not run (exit %s): %s" % (self.step["name"], rc, err[-2000:]))
            if rc == -9:
                raise Inconclusive("harness %s was killed (out of memory?) in %s" % (self.step["name"], what))
            self.crash(rc, idx, what, err)
        if self.just is not None:
            self.done = True
            return False
        self.crashes += 1
        if self.crashes > 12:
            self.done = True
            return False
        self.frm = idx + 1
        self.start()
        return True

    def crash(self, rc, idx, what, err):
        i = err.find("ERROR: ")
        i = i if i >= 0 else max(0, err.find("runtime error") - 200)
        self.viols.append({"key": "crash:%s:%s" % (crash_kind(rc, err), what.split("|")[0]), "case": idx, "what": what, "step": self.step["name"],
                           "detail": {"exit": rc, "stderr": err[i:i + 4000]}})

    def hang(self, idx, what):
        # once more, alone and with twice the time, before it is called a hang
        if self.just is None:
            r = Run(None, self.step, self.exe, self.shard, self.shards, self.work / ("retry%d" % idx) if (self.work / ("retry%d" % idx)).mkdir(exist_ok=True) is None else None,
                    just=idx, limit=2 * self.limit)
            while r.poll():
                time.sleep(0.2)
            self.viols += r.viols
            self.summaries += r.summaries
            self.distinct |= r.distinct
        else:
            self.viols.append({"key": "hang:" + what.split("|")[0], "case": idx, "what": what, "step": self.step["name"],
                               "detail": {"seconds": self.limit}})


def run_step(step, work, just=None):
    exe = vbuild.build(step["variant"], step["harness"], step.get("flags", ()))
    shards = step.get("shards", 8) if just is None else 1
    runs = [Run(None, step, exe, s, shards, work, just=just) for s in range(shards)]
    try:
        while True:
            if not any([r.poll() for r in runs]):
                break
            time.sleep(0.1)
    finally:
        for r in runs:
            if r.p.poll() is None:
                r.kill()
    return runs


def known_findings(pid):
    known = {}
    f = VERIF / "known_findings.txt"
    if f.exists():
        for l in f.read_text().splitlines():
            m = re.match(r"known: property=(\S+) key=(.*?) \| (.*)$", l)
            if m and m.group(1) == pid:
                known[m.group(2)] = m.group(3)
    return known


def main():
    global SEED, THOROUGH
    pid = sys.argv[1]
    check = CHECKS[pid]
    t0 = time.time()
    ev = VERIF / "evidence" / (pid + ".json")
    ev.parent.mkdir(exist_ok=True)
    if ev.exists():
        ev.unlink()
    base = VERIF / "build" / "work"
    base.mkdir(parents=True, exist_ok=True)
    work = pathlib.Path(tempfile.mkdtemp(prefix=pid + "-", dir=base))
    try:
        steps = check["steps"](THOROUGH) if callable(check["steps"]) else check["steps"]
        just, only = None, None
        if len(sys.argv) > 3 and sys.argv[2] == "--replay":
            r = json.loads(pathlib.Path(sys.argv[3]).read_text())
            just, only = r.get("case"), r.get("step")
            SEED, THOROUGH = r["seed"], r["tier"] == "thorough"
            steps = [s for s in (check["steps"](THOROUGH) if callable(check["steps"]) else check["steps"]) if s["name"] == only or check.get("compare")]
            if check.get("compare"):
                just = None
        viols, sums, distinct, notes, allruns = [], [], set(), [], {}
        for n, step in enumerate(steps):
            w = work / ("s%d" % n)
            w.mkdir()
            runs = run_step(step, w, just)
            allruns[step["name"]] = runs
            for r in runs:
                viols += r.viols
                sums += [(step["name"], s) for s in r.summaries]
                distinct |= r.distinct
                notes += r.notes
        if check.get("compare"):
            v, c = check["compare"](allruns)
            viols += v
            sums.append(("compare", c))
        if check.get("post"):
            v, c = check["post"](VERIF, vbuild.REPO, THOROUGH, SEED, work)
            viols += v
            sums.append(("post", c))
        # one report for each key
        known, bykey = known_findings(pid), {}
        for v in viols:
            bykey.setdefault(v["key"], []).append(v)
        bad = []
        for k, vs in sorted(bykey.items()):
            if k in known:
                print("KNOWN-FINDING: property=%s %s" % (pid, known[k]))
            else:
                bad.append((k, vs))
        counts, maxima, samples = {}, {}, []
        evals = 0
        for name, s in sums:
            evals += s.get("evaluations", 0)
            for k, n in s.get("counts", {}).items():
                counts[k] = counts.get(k, 0) + n
            for k, x in s.get("maxima", {}).items():
                maxima[k] = max(maxima.get(k, x), x) if x is not None else maxima.get(k)
        pools = [s.get("samples", []) for _, s in sums]
        while len(samples) < 24 and any(pools):
            for q in pools:
                if q:
                    samples.append(q.pop(0))
        replays = VERIF / "replays"
        replays.mkdir(exist_ok=True)
        for i, (k, vs) in enumerate(bad[:50]):
            p = replays / ("%s-%d.json" % (pid, i))
            p.write_text(json.dumps({"property": pid, "key": k, "seed": SEED, "tier": TIER, "step": vs[0].get("step"), "case": vs[0].get("case"),
                                     "how": "python3 tools/check.py %s --replay %s" % (pid, p), "instances": vs[:5]}, indent=1))
            print("VIOLATION property=%s replay=%s" % (pid, p))
            print("  %s (%d) %s" % (k, len(vs), json.dumps(vs[0].get("detail"))[:600]))
        if evals < check.get("min_evaluations", 1) and not bad and just is None:
            raise Inconclusive("only %d evaluations" % evals)
        if just is None:
            ev.write_text(json.dumps({
                "property": pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": check.get("level", "exploration"),
                "coverage": {"evaluations": evals, "distinct_nontrivial": len(distinct) or sum(s.get("distinct_n", 0) for _, s in sums), "rule": check["rule"],
                             "samples": samples[:24] or ["none"], "observed": dict(sorted(counts.items())), "maxima": maxima, "notes": sorted(set(notes))[:40],
                             "known_findings": sorted(k for k in bykey if k in known)},
                "assumptions": check.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(bad)}, indent=1))
        print("%s: %d evaluations, %d distinct, %d violation kinds, %.1f s" % (pid, evals, len(distinct), len(bad), time.time() - t0))
        return 1 if bad else 0
    except vbuild.BuildError as e:
        print("check error: the tree does not build: %s" % e)
        return 2
    except Inconclusive as e:
        print("check inconclusive: %s" % e)
        return 3
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
        vbuild.prune()


if __name__ == "__main__":
    sys.exit(main())
