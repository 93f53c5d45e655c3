#!/usr/bin/env python3
"""Builds the harnesses of one property from /repo's working tree, runs the exhaustive exploration, writes evidence.

usage: driver.py PROPERTY [--tier quick|thorough] [--keep] [--only SUBSTRING]
exit 0: held on everything explored; exit 1 + VIOLATION line: broken; exit 2: the sandbox cannot run the check."""
import concurrent.futures as cf
import json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VIRMC_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
EVID = os.path.join(VERIF, "evidence")
sys.path.insert(0, os.path.join(VERIF, "mc"))

def cpu_flags():
    try:
        for line in open("/proc/cpuinfo"):
            if line.startswith("flags"):
                return set(line.split(":", 1)[1].split())
    except OSError:
        pass
    return set()
CPU = cpu_flags()
def can_run(march):
    if march is None or march in ("x86-64", "x86-64-v2"):
        return True
    need = {"x86-64-v3": {"avx2", "bmi2", "fma"}, "avx": {"avx"},
            "x86-64-v4": {"avx512f", "avx512bw", "avx512dq", "avx512vl", "avx512cd"}}[march]
    return need <= CPU

class Job:
    """One harness in one configuration.  kind: run (build and run), syntax (must compile), reject (must be rejected by
    the compiler while the same source without -DVIRMC_BAD is accepted), warn (both variants are accepted, only the
    -DVIRMC_BAD one with a diagnostic that matches pattern)."""
    def __init__(self, name, src, std="gnu++20", opt="-O1", march="x86-64-v3", mode="stdlib", cxx="g++", defs=(),
                 extra=(), kind="run", timeout=240, pattern=None):
        self.name, self.src, self.std, self.opt, self.march = name, src, std, opt, march
        self.mode, self.cxx, self.defs, self.extra = mode, cxx, list(defs), list(extra)
        self.kind, self.timeout, self.pattern = kind, timeout, pattern
    def config(self):
        return f"{self.cxx} {self.std} {self.opt} {self.march} {self.mode} {' '.join(self.defs + self.extra)}".strip()
    def cmd(self, out, more=()):
        c = [self.cxx, f"-std={self.std}", self.opt] + ([] if self.kind == "warn" else ["-w"]) + ["-fno-diagnostics-color", f"-I{REPO}", f"-I{HARNESS}"]
        if self.march == "avx":
            c.append("-mavx")
        elif self.march:
            c.append(f"-march={self.march}")
        if self.mode == "fallback":
            c.append("-DVIR_DISABLE_STDX_SIMD")
        c += [f"-D{d}" for d in self.defs] + self.extra + list(more)
        c.append(self.src if os.path.isabs(self.src) else os.path.join(HARNESS, self.src))
        c += ["-o", out] if self.kind == "run" else ["-fsyntax-only"] if self.kind == "syntax" else ["-c", "-o", out]
        return c

class Result:
    def __init__(self, job):
        self.job, self.ok, self.why, self.out = job, True, "", ""
        self.states = self.transitions = self.traces = 0
        self.samples, self.executed, self.wall, self.cmd = [], False, 0.0, []

stop = threading.Event()
serial = threading.Lock()

def sh(cmd, timeout, env=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True, env=env)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode(errors="replace"), e.decode(errors="replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.communicate()
        return None, "", "timeout"

def compile_job(job, out, more=()):
    cmd = job.cmd(out, more)
    rc, o, e = sh(cmd, 600)
    if rc != 0 and (rc is None or rc < 0 or "Killed" in e or "internal compiler error" in e or "error" not in e):
        with serial:                                  # out of memory or a hiccup: once more, alone
            rc, o, e = sh(cmd, 600)
    return rc, e, cmd

def first_errors(e):
    lines = [l for l in e.splitlines() if re.search(r"\berror\b", l)]
    return " | ".join(lines[:3])[:1200] if lines else e[-600:]

def run_job(job, scratch, idx):
    r = Result(job)
    if stop.is_set():
        r.why = "skipped"
        return r
    t0 = time.time()
    exe = os.path.join(scratch, f"j{idx}")
    if job.kind == "reject":
        rc, e, cmd = compile_job(job, exe)
        r.cmd = cmd
        if rc != 0:
            r.ok, r.why = False, "the accepted variant does not compile: " + first_errors(e)
        else:
            rc, e, cmd = compile_job(job, exe, ["-DVIRMC_BAD"])
            r.cmd = cmd
            if rc == 0:
                r.ok, r.why = False, "the compiler accepts a program that must be rejected"
            elif job.pattern and not re.search(job.pattern, e):
                r.ok, r.why = False, f"rejected without the diagnostic /{job.pattern}/: " + first_errors(e)
        r.states, r.transitions, r.traces, r.executed = 2, 1, 1, True
        r.samples = [f"[{job.config()}] {job.name}: accepted variant compiles, rejected variant does not"]
        r.wall = time.time() - t0
        return r
    if job.kind == "warn":
        for more, want in ((["-Wno-all"], False), (["-Wno-all", "-DVIRMC_BAD"], True)):
            rc, e, r.cmd = compile_job(job, exe, more)
            if rc != 0:
                r.ok, r.why = False, "does not compile: " + first_errors(e)
                break
            if bool(re.search(job.pattern, e)) != want:
                r.ok, r.why = False, ("no diagnostic /%s/" if want else "unexpected diagnostic /%s/") % job.pattern
                break
        r.states, r.transitions, r.traces, r.executed = 2, 1, 1, True
        r.samples = [f"[{job.config()}] {job.name}: diagnostic exactly for the violated variant"]
        r.wall = time.time() - t0
        return r
    rc, e, r.cmd = compile_job(job, exe)
    if rc != 0:
        r.ok, r.why = False, "harness does not compile against /repo: " + first_errors(e)
        r.wall = time.time() - t0
        return r
    if job.kind == "syntax":
        # the static assertions inside are the enumeration; VIRMC_COUNT(n) comments announce how many
        src = job.src if os.path.isabs(job.src) else os.path.join(HARNESS, job.src)
        text = open(src).read()
        n = len(re.findall(r"static_assert|^#include <vir", text, re.M))
        r.states = r.transitions = r.traces = max(n, 1)
        r.executed = True
        r.samples = [f"[{job.config()}] {job.name}: compiles"]
        r.wall = time.time() - t0
        return r
    if not can_run(job.march):
        r.why = "compiled only (cpu lacks " + job.march + ")"
        r.wall = time.time() - t0
        return r
    env = dict(os.environ, VIRMC_ALARM=str(job.timeout))
    r.cmd = r.cmd + ["&&", exe]
    def once(tmo):
        env["VIRMC_ALARM"] = str(tmo)
        return sh([exe], tmo + 30, env)
    rc, o, e = once(job.timeout)
    good = rc == 0 and "STATS " in o and "FAIL " not in o
    if not good:
        hang = rc is None or "(hang)" in o
        with serial:
            rc2, o2, e2 = once(job.timeout * (2 if hang else 1))
        good2 = rc2 == 0 and "STATS " in o2 and "FAIL " not in o2
        if good2 and not hang:
            # a deterministic harness that differs between two runs: third vote
            with serial:
                rc2, o2, e2 = once(job.timeout)
            good2 = rc2 == 0 and "STATS " in o2 and "FAIL " not in o2
        rc, o, e = rc2, o2, e2
        if not good2:
            fails = [l for l in o.splitlines() if l.startswith("FAIL ")]
            r.ok = False
            r.why = fails[0] if fails else f"harness ended with status {rc} ({e.strip()[-300:]})"
            r.wall = time.time() - t0
            return r
    r.out = o
    for l in o.splitlines():
        if l.startswith("STATS "):
            d = dict(re.findall(r"(\w+)=(\d+)", l))
            r.states += int(d["states"]); r.transitions += int(d["transitions"]); r.traces += int(d["traces"])
        elif l.startswith("SAMPLE "):
            r.samples.append(f"[{job.config()}] {l[7:]}")
    r.executed = True
    r.wall = time.time() - t0
    try:
        os.unlink(exe)
    except OSError:
        pass
    return r

def sanity(scratch):
    src = os.path.join(scratch, "sanity.cpp")
    open(src, "w").write("#include <vector>\nint main() { return int(std::vector<int>(3).size()) - 3; }\n")
    for cxx in ("g++",):
        rc, o, e = sh([cxx, "-std=gnu++20", src, "-o", src + ".exe"], 120)
        if rc != 0 or sh([src + ".exe"], 30)[0] != 0:
            return False
    return True

def known_findings(pid):
    out = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"finding: property=(\S+) match=/(.*?)/ (.*)", l.strip())
            if m and m[1] == pid:
                out.append((re.compile(m[2]), m[3]))
    return out

def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--only", default="")
    ap.add_argument("--times", action="store_true")
    ap.add_argument("-j", type=int, default=max(1, os.cpu_count() or 8))
    ap.add_argument("--selftest", action="store_true")
    a = ap.parse_args()
    if a.selftest:
        d = tempfile.mkdtemp(prefix="virmc-")
        try:
            return 0 if sanity(d) else 2
        finally:
            shutil.rmtree(d, ignore_errors=True)
    pid = a.property
    import checks
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    build = os.path.join(VERIF, ".build")
    os.makedirs(build, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix=pid + "-", dir=build)
    code = 2
    try:
        spec = checks.CHECKS[pid](a.tier, scratch)
        jobs = [j for j in spec["jobs"] if a.only in j.name + " " + j.config()]
        results = []
        with cf.ThreadPoolExecutor(a.j) as ex:
            futs = [ex.submit(run_job, j, scratch, i) for i, j in enumerate(jobs)]
            for f in cf.as_completed(futs):
                r = f.result()
                results.append(r)
                if not r.ok and not any(p.search(r.why) for p, _ in known_findings(pid)):
                    stop.set()
        bad = [r for r in results if not r.ok]
        if bad and not sanity(scratch):
            print("the compiler does not work in this sandbox", file=sys.stderr)
            return 2
        kf, viol = [], []
        for r in bad:
            for pat, text in known_findings(pid):
                if pat.search(r.why):
                    kf.append(text)
                    break
            else:
                viol.append(r)
        for text in sorted(set(kf)):
            print(f"KNOWN-FINDING: property={pid} {text}")
        if a.times:
            for r in sorted(results, key=lambda r: -r.wall):
                print(f"{r.wall:7.1f}s {r.job.name} [{r.job.config()}] states={r.states}")
        samples, per = [], max(1, 12 // max(1, len(results)))
        for r in sorted(results, key=lambda r: r.job.name):
            samples += r.samples[:per]
        cov = {
            "states": sum(r.states for r in results),
            "transitions": sum(r.transitions for r in results),
            "traces_validated_against_impl": sum(r.traces for r in results),
            "samples": samples[:16],
            "exhaustive": not viol and not a.only and not any(r.why == "skipped" for r in results),
            "bounds": spec["bounds"],
            "oracle": spec["oracle"],
            "binding": "the explored transitions are calls of the real headers compiled from /repo; there is no separate "
                       "model of the code to go stale: the reference model only says what the result has to be",
            "configurations": sorted({r.job.config() for r in results if r.executed}),
            "harness_runs": sum(r.executed for r in results),
            "compiled_only": sorted({r.job.name for r in results if r.ok and not r.executed and r.why != "skipped"}),
        }
        ev = {"property": pid, "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
              "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking", "coverage": cov,
              "assumptions": spec.get("assumptions", []) + [
                  "g++ 13 / clang++ 18 and this CPU execute the compiled harness as the language says",
                  "behaviour depends on no input outside the enumerated alphabet and bounds given above"],
              "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
        tmp = os.path.join(EVID, f".{pid}.json")
        json.dump(ev, open(tmp, "w"), indent=1)
        os.replace(tmp, os.path.join(EVID, f"{pid}.json"))
        if viol:
            rp = os.path.join(EVID, f"{pid}.replay.sh")
            with open(rp, "w") as f:
                f.write("#!/bin/bash\n# Replays the violations of property %s found in /repo; each line that prints FAIL or a "
                        "compiler error is one.\nD=$(mktemp -d); trap 'rm -rf \"$D\"' EXIT\n" % pid)
                for r in viol:
                    f.write(f"# {r.job.name} [{r.job.config()}]\n# {r.why}\n")
                    cmdl = list(r.cmd)
                    for i, c in enumerate(cmdl):
                        if c.startswith(scratch) and c.endswith(".cpp"):      # generated source: inline it
                            cmdl[i] = f"$D/{os.path.basename(c)}"
                            f.write(f"cat > {cmdl[i]} <<'EOF_GEN'\n{open(c).read()}\nEOF_GEN\n")
                    cmd = " ".join("'%s'" % c if re.search(r"[^\w./=+-]", c) and c != "&&" else c for c in cmdl)
                    cmd = re.sub(re.escape(scratch) + r"/j\d+", "$D/exe", cmd)
                    f.write(re.sub(r"'(\$D/[^']*)'", r"\1", cmd) + "\n")
            os.chmod(rp, 0o755)
            for r in viol[:5]:
                print(f"{r.job.name} [{r.job.config()}]: {r.why}")
            print(f"VIOLATION property={pid} replay={rp}")
            code = 1
        else:
            print(f"{pid}: held; states={cov['states']} transitions={cov['transitions']} "
                  f"traces={cov['traces_validated_against_impl']} jobs={len(results)} wall={ev['wall_s']}s")
            code = 0
    finally:
        if not a.keep:
            shutil.rmtree(scratch, ignore_errors=True)
            try:
                os.rmdir(build)
            except OSError:
                pass
    return code

if __name__ == "__main__":
    sys.exit(main())
