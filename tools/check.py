#!/usr/bin/env python3
"""check.py ID: builds what the check needs from /repo, searches generated
cases with the property's harness, writes evidence/ID.json.

Exit 0: the property held on everything explored. Exit 1 and a VIOLATION line:
it does not. check.py --replay FILE runs one replay file."""
import json
import os
import re
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import threading
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
import checks as C

VERIF = B.VERIF
HANG_S = float(os.environ.get("PBT_HANG_S", "75"))
PETSC = "/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-real/lib"


def run_env(libdir, scratch, ncus, extra=None):
    e = dict(B.CLEAN_ENV)
    e.update({
        "OCL_ICD_FILENAMES": "/opt/sycl/lib/libintelocl.so",
        "ONEAPI_DEVICE_SELECTOR": "opencl:cpu",
        "OMPI_ALLOW_RUN_AS_ROOT": "1",
        "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1",
        "OMPI_MCA_plm": "isolated",
        "OMPI_MCA_btl": "self,vader",
        "OMPI_MCA_btl_vader_single_copy_mechanism": "none",
        # the graph communicators of treematch deadlock (see DESIGN.md)
        "OMPI_MCA_topo": "^treematch",
        # the default (vulcan) writes uninitialised bytes now and then
        "OMPI_MCA_fcoll": "two_phase",
        "OMPI_MCA_mpi_yield_when_idle": "1",
        "OMPI_MCA_rmaps_base_oversubscribe": "1",
        "OMPI_MCA_orte_tmpdir_base": scratch,
        "TMPDIR": scratch,
        "LD_LIBRARY_PATH": ":".join([libdir, "/opt/sycl/lib",
                                     "/usr/lib/x86_64-linux-gnu/hdf5/openmpi", PETSC]),
        "SYCL_CACHE_PERSISTENT": "1",
        "SYCL_CACHE_DIR": os.path.join(B.BUILD, "jit"),
        "DPCPP_CPU_NUM_CUS": str(ncus),
        "PBT_SCRATCH": scratch,
        "NESO_PARTICLES_TEST_RESOURCES_DIR": B.REPO + "/test/test_resources",
    })
    if extra:
        e.update(extra)
    return e


class Run:
    """One run of a harness on some ranks, watched through its trace file."""

    def __init__(self, exe, libdir, cfg, args, hang_s=HANG_S, wall_s=600):
        self.exe, self.libdir, self.cfg, self.args = exe, libdir, cfg, args
        self.hang_s, self.wall_s = hang_s, wall_s
        self.lines, self.status, self.stderr = [], None, ""
        self.trace = None

    def read_trace(self, path):
        try:
            with open(path, "rb") as f:
                b = f.read(40)
                if len(b) < 40:
                    return None
                magic, idx, phase, n, hb = struct.unpack("<5Q", b)
                if magic != 0x70627431:
                    return None
                n = min(n, 1 << 16)
                ch = struct.unpack("<%dQ" % n, f.read(8 * n))
                return {"index": idx, "phase": phase, "heartbeat": hb, "choices": list(ch)}
        except (OSError, struct.error):
            return None

    def go(self):
        base = tempfile.mkdtemp(prefix="pbt_", dir=os.environ.get("TMPDIR", "/tmp"))
        trace = os.path.join(base, "trace")
        out = os.path.join(base, "out")
        try:
            nr = self.cfg["ranks"]
            cmd = []
            cmd += ["mpirun", "-n", str(nr), "--bind-to", "none"]
            cmd += [self.exe, "--trace", trace, "--out", out] + [str(a) for a in self.args]
            env = run_env(self.libdir, base, self.cfg.get("cus", max(1, 4 // nr)), self.cfg.get("env"))
            errf = open(os.path.join(base, "err"), "wb")
            outf = open(os.path.join(base, "stdout"), "wb")
            t0 = time.time()
            p = subprocess.Popen(cmd, stdout=outf, stderr=errf, stdin=subprocess.DEVNULL,
                                 env=env, cwd=base, start_new_session=True)
            last, last_t = None, time.time()
            while True:
                try:
                    p.wait(0.25)
                    self.status = "exit" if p.returncode == 0 else "crash"
                    break
                except subprocess.TimeoutExpired:
                    pass
                t = self.read_trace(trace)
                mark = (t["heartbeat"], t["index"], t["phase"], len(t["choices"])) if t else None
                if mark != last:
                    last, last_t = mark, time.time()
                if time.time() - last_t > self.hang_s:
                    self.status = "hang"
                elif time.time() - t0 > self.wall_s:
                    self.status = "timeout"
                if self.status:
                    self.trace = self.read_trace(trace)
                    try:
                        os.killpg(p.pid, signal.SIGTERM)
                        p.wait(3)
                    except subprocess.TimeoutExpired:
                        pass
                    except ProcessLookupError:
                        pass
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    p.wait()
                    # ranks are in their own sessions: named by their trace file
                    subprocess.run(["pkill", "-KILL", "-f", trace], env=B.CLEAN_ENV)
                    break
            errf.close()
            outf.close()
            self.rc = p.returncode
            if self.trace is None:
                self.trace = self.read_trace(trace)
            with open(os.path.join(base, "err"), "rb") as f:
                e = f.read().decode(errors="replace")
            with open(os.path.join(base, "stdout"), "rb") as f:
                o = f.read().decode(errors="replace")
            self.stderr = (o[-3000:] + "\n" + e[-5000:]).strip()
            if os.path.exists(out):
                for l in open(out):
                    try:
                        self.lines.append(json.loads(l))
                    except ValueError:
                        pass
            if self.status == "exit" and (not self.lines or self.lines[-1].get("partial")):
                self.status = "crash"
        finally:
            shutil.rmtree(base, ignore_errors=True)
        return self

    def result(self):
        return self.lines[-1] if self.lines else None

    def reason(self):
        """A one line reason of a crash."""
        for pat in (r"NESO.*", r".*[Ee]xception.*", r".*(?:SIG[A-Z]+|Segmentation|Aborted|terminate called).*",
                    r".*what\(\).*", r".*ERROR.*", r".*error.*"):
            m = re.search(pat, self.stderr)
            if m:
                return m.group(0).strip()[:300]
        return (self.stderr.splitlines() or ["no output"])[-1][:300]


def replay_once(exe, libdir, cfg, choices, hang_s):
    d = tempfile.mkdtemp(prefix="pbtr_")
    try:
        f = os.path.join(d, "choices")
        with open(f, "w") as h:
            h.write("\n".join(str(c) for c in choices) + "\n")
        r = Run(exe, libdir, cfg, ["--replay", f], hang_s=hang_s, wall_s=200).go()
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if r.status == "exit":
        res = r.result()
        return ("fail", res["message"], res["notes"]) if res["failed"] else ("pass", "", res["notes"])
    return (r.status, "the program " + ("hung" if r.status in ("hang", "timeout") else "died: " + r.reason()), [])


class Check:
    def __init__(self, cid, tier, seed):
        self.cid, self.tier, self.seed = cid, tier, seed
        self.spec = C.CHECKS[cid]
        self.t0 = time.time()
        self.known = []
        p = os.path.join(VERIF, "known_findings.json")
        if os.path.exists(p):
            with open(p) as f:
                self.known = [k for k in json.load(f)["known"] if k["property"] == cid]
        self.lock = threading.Lock()
        self.viol = []          # confirmed
        self.known_hit = {}
        self.incon = []
        self.stop = False
        self.stats = {"ran": 0, "discarded": 0, "nontrivial": 0, "distinct": 0}
        self.labels, self.samples, self.per_config = {}, [], []

    # ---- search -----------------------------------------------------------
    def budget(self, cfg):
        if self.tier == "thorough":
            return float(os.environ.get("PBT_BUDGET", self.spec.get("thorough_s", 900)))
        return float(os.environ.get("PBT_BUDGET", self.spec.get("quick_s", 45)))

    def cases(self, cfg):
        n = cfg["cases"]
        if self.tier == "thorough":
            n *= self.spec.get("thorough_factor", 40)
        return int(n * float(os.environ.get("PBT_SCALE", "1")))

    def search(self, ci, cfg):
        """All cases of one configuration; restarts after crashes and hangs."""
        name = cfg.get("name", "%d rank%s" % (cfg["ranks"], "s" if cfg["ranks"] > 1 else ""))
        total = self.cases(cfg)
        start, t0 = 0, time.time()
        budget = self.budget(cfg)
        st = {"config": name, "cases_requested": total, "ran": 0, "nontrivial": 0,
              "distinct": 0, "discarded": 0}
        interrupts = 0
        while start < total and not self.stop:
            left = budget - (time.time() - t0)
            if left < 2 and start > 0:
                break
            run = Run(self.exe, self.libdir, cfg,
                      ["--seed", self.seed * 1000 + ci, "--cases", total - start, "--start", start,
                       "--budget", max(left, 5), "--shrink", 25 if self.tier == "quick" else 60],
                      wall_s=left + 240).go()
            res = run.result()
            final = res and not res.get("partial")
            if run.status == "exit" and final:
                for k in ("ran", "nontrivial", "distinct", "discarded"):
                    st[k] += res[k]
                with self.lock:
                    for k, v in res["labels"].items():
                        self.labels[k] = self.labels.get(k, 0) + v
                    for s in res["samples"]:
                        if len(self.samples) < 6:
                            self.samples.append({"config": name, "case": s})
                if not res["failed"]:
                    break
                cands = [res["choices"], res["original"]]
                if not self.judge(cfg, name, cands, res["index"], res["message"]):
                    pass
                start = res["index"] + 1
            else:
                # died or hung: the trace names the case
                t = run.trace
                interrupts += 1
                if t is None:
                    self.inconclusive(name, "no trace: " + run.status + " " + run.reason())
                    if interrupts > 2:
                        break
                    continue
                idx = t["index"]
                choices = t["choices"]
                if t["phase"] == 2 and res and res.get("partial"):
                    idx, choices = res["index"], res["choices"]
                    cands = [t["choices"], choices]
                else:
                    cands = [choices]
                st["ran"] += max(0, idx - start)
                if t["phase"] == 3 or (t["phase"] == 0 and t["index"] == 0 and not t["choices"]):
                    self.inconclusive(name, "outside a case: " + run.status + " " + run.reason())
                    if interrupts > 2:
                        break
                    if t["phase"] == 3:
                        break
                    continue
                self.judge(cfg, name, cands, idx, run.status + ": " + run.reason(), died=True)
                start = idx + 1
            if interrupts > 8:
                break
        with self.lock:
            for k in ("ran", "nontrivial", "distinct", "discarded"):
                self.stats[k] += st[k]
            st["wall_s"] = round(time.time() - t0, 1)
            self.per_config.append(st)

    def inconclusive(self, name, what):
        with self.lock:
            self.incon.append({"config": name, "what": what})

    # ---- deciding ---------------------------------------------------------
    def judge(self, cfg, name, cands, index, message, died=False):
        """A failure counts when fresh processes fail the same case again."""
        for choices in cands:
            need, seen = (2, 3)
            outs = []
            for _ in range(seen):
                outs.append(replay_once(self.exe, self.libdir, cfg, choices, HANG_S))
                bad = [o for o in outs if o[0] != "pass"]
                if len(bad) >= need or len(outs) - len(bad) > seen - need:
                    break
            if len(bad) >= need:
                msg, notes = bad[-1][1], bad[-1][2]
                if died and self.tier == "quick" or died:
                    choices, msg2, notes2 = self.shrink_died(cfg, choices, bad[-1])
                    msg, notes = msg2 or msg, notes2 or notes
                self.report(cfg, name, choices, index, msg, notes, bad[-1][0])
                return True
        # The failure may need the cases before it.
        lo = max(0, index - 60)
        again = 0
        for _ in range(2):
            r = Run(self.exe, self.libdir, cfg,
                    ["--seed", self.seed * 1000 + C.CHECKS[self.cid]["configs"].index(cfg),
                     "--start", lo, "--cases", index - lo + 1, "--shrink", 0],
                    wall_s=260).go()
            res = r.result()
            if r.status != "exit" or (res and res["failed"]):
                again += 1
                message = res["message"] if res and res.get("failed") else r.status + ": " + r.reason()
            else:
                break
        if again == 2:
            self.report(cfg, name, None, index, message, ["cases %d to %d of the search, in one process" % (lo, index)],
                        "campaign", lo)
            return True
        self.inconclusive(name, "case %d failed once and passed again: %s" % (index, message))
        return False

    def shrink_died(self, cfg, choices, last):
        """A few deletions across processes, for cases that end the program."""
        end = time.time() + (40 if self.tier == "quick" else 120)
        best, msg, notes = list(choices), last[1], last[2]
        if last[0] in ("hang", "timeout"):
            return best, msg, notes
        chunk = max(1, len(best) // 2)
        while chunk >= 1 and time.time() < end:
            i = len(best) - chunk
            while i >= 0 and time.time() < end:
                c = best[:i] + best[i + chunk:]
                r = replay_once(self.exe, self.libdir, cfg, c, 20)
                if r[0] == last[0]:
                    best, msg = c, r[1]
                i -= chunk
            chunk //= 2
        return best, msg, notes

    def report(self, cfg, name, choices, index, message, notes, how, lo=None):
        for k in self.known:
            if re.search(k["match"], message) and all(
                    any(re.search(n, x) for x in notes) for n in k.get("notes", [])):
                with self.lock:
                    self.known_hit[k["id"]] = k
                return
        with self.lock:
            n = len(self.viol)
            d = os.path.join(VERIF, "build", "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s_%s_%d_%d.json" % (self.cid, self.tier, self.seed, n))
            rec = {"property": self.cid, "config": cfg, "config_name": name, "seed": self.seed,
                   "case_index": index, "how": how, "message": message, "case": notes,
                   "choices": choices}
            if choices is None:
                rec["campaign"] = {"start": lo, "cases": index - lo + 1,
                                   "seed": self.seed * 1000 + self.spec["configs"].index(cfg)}
            with open(path, "w") as f:
                json.dump(rec, f, indent=1)
            self.viol.append(rec)
            self.stop = True
        print("violated on %s (%s): %s" % (name, how, message), flush=True)
        for x in notes[-12:]:
            print("    " + x)
        print("VIOLATION property=%s replay=%s" % (self.cid, path), flush=True)

    # ---- the whole check --------------------------------------------------
    def main(self):
        try:
            self.libdir, exes = B.build([self.cid], verbose=True)
        except B.BuildError as e:
            # Nothing was decided; the tree does not build with the harness.
            print("BUILD FAILED\n" + str(e)[-4000:])
            self.evidence("build failed")
            return 2
        self.exe = exes[self.cid]
        self.build_s = time.time() - self.t0
        self.warm()
        pend = list(enumerate(self.spec["configs"]))
        pend.sort(key=lambda x: -x[1]["ranks"])
        slots = threading.Semaphore(self.spec.get("parallel", 3))
        ths = []

        def worker(ci, cfg):
            with slots:
                if not self.stop:
                    self.search(ci, cfg)
        for ci, cfg in pend:
            t = threading.Thread(target=worker, args=(ci, cfg))
            t.start()
            ths.append(t)
        for t in ths:
            t.join()
        for k in self.known:
            # a listed finding is shown by its own input
            if k["id"] not in self.known_hit and k.get("replay"):
                with open(os.path.join(VERIF, k["replay"])) as f:
                    rp = json.load(f)
                r = replay_once(self.exe, self.libdir, rp["config"], rp["choices"], 30)
                if r[0] != "pass" and re.search(k["match"], r[1]):
                    self.known_hit[k["id"]] = k
        for k in self.known_hit.values():
            print("KNOWN-FINDING: property=%s %s" % (self.cid, k["what"]))
        self.evidence()
        s = self.stats
        print("%s: %d cases, %d distinct non-trivial, %d discarded, %d inconclusive, %.0f s (build %.0f s)" % (
            self.cid, s["ran"], s["distinct"], s["discarded"], len(self.incon),
            time.time() - self.t0, self.build_s))
        for i in self.incon:
            print("  inconclusive: %s: %s" % (i["config"], i["what"]))
        return 1 if self.viol else 0

    def warm(self):
        """One process fills the device code cache before many want it."""
        cfg = dict(self.spec["configs"][0])
        cfg["ranks"] = 1
        key = os.path.join(B.BUILD, "warm_" + os.path.basename(self.exe) + "_" + os.path.basename(self.libdir))
        if os.path.exists(key):
            return
        if min(c["ranks"] for c in self.spec["configs"]) > 1:
            cfg["ranks"] = min(c["ranks"] for c in self.spec["configs"])
        Run(self.exe, self.libdir, cfg, ["--seed", 424242, "--cases", self.spec.get("warm", 25),
                                         "--budget", 25, "--shrink", 0], wall_s=150).go()
        open(key, "w").close()

    def evidence(self, why=None):
        s = self.stats
        rule = self.spec["rule"]
        ev = {"property": self.cid, "tier": self.tier, "seed": self.seed, "level": "exploration",
              "coverage": {"evaluations": s["ran"], "distinct_nontrivial": s["distinct"],
                           "nontrivial": s["nontrivial"], "discarded": s["discarded"],
                           "rule": rule, "samples": self.samples or [{"none": why or "no sample kept"}],
                           "labels": self.labels, "configurations": self.per_config,
                           "inconclusive": self.incon,
                           "known_findings": sorted(self.known_hit)},
              "assumptions": self.spec.get("assumptions", []) + C.COMMON_ASSUMPTIONS,
              "wall_s": round(time.time() - self.t0, 1), "violations": len(self.viol)}
        if self.viol:
            ev["coverage"]["violations"] = [{k: v[k] for k in ("config_name", "message", "case", "how")}
                                            for v in self.viol]
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.cid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)


def do_replay(path):
    with open(path) as f:
        rec = json.load(f)
    libdir, exes = B.build([rec["property"]])
    exe = exes[rec["property"]]
    if rec.get("choices") is not None:
        r = replay_once(exe, libdir, rec["config"], rec["choices"], HANG_S)
        print(r[0] + ": " + r[1])
        for n in r[2]:
            print("    " + n)
        return 0 if r[0] == "pass" else 1
    c = rec["campaign"]
    r = Run(exe, libdir, rec["config"], ["--seed", c["seed"], "--start", c["start"], "--cases", c["cases"],
                                         "--shrink", 0], wall_s=400).go()
    res = r.result()
    bad = r.status != "exit" or res["failed"]
    print(("fail: " + (res["message"] if res and r.status == "exit" else r.status + " " + r.reason())) if bad else "pass")
    return 1 if bad else 0


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        sys.exit(do_replay(sys.argv[2]))
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    sys.exit(Check(sys.argv[1], tier if tier in ("quick", "thorough") else "quick", seed).main())
