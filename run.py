#!/usr/bin/env python3
"""Driver of the checks: builds instrumented copies of /repo's current sources
in a scratch directory, runs the monitored workloads, gathers what the monitors
observed, and gives the verdict.

  run.py PROP [--tier quick|thorough] [--seed N]     run the check of a property
  run.py --replay FILE                               run again one reported case
  run.py --setup                                     check that the tools are there

Exit status: 0 held on everything explored; 1 violation (with a VIOLATION
line); 2 the check could not decide (build failure, harness failure, nothing
observed).
"""
import argparse, concurrent.futures as cf, glob, json, os, re, shutil, signal
import subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
sys.path.insert(0, VERIF)
import checks  # noqa: E402

NPROC = max(1, min(8, os.cpu_count() or 1))
WRAP = "-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,--wrap=strdup"
BUILDS = {
    # name: (compiler, compile flags, link flags, harness-only flags)
    "asan": ("gcc", "-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined,float-cast-overflow "
             "-fno-sanitize-recover=all", WRAP, ""),
    # with the subroutines for Fortran, under three conventions for their names
    **{"fortran%d" % k: ("gcc", "-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined,float-cast-overflow "
                         "-fno-sanitize-recover=all -DFORTRAN_LINKAGE=%d" % k, WRAP, "") for k in (1, 2, 3)},
    "plain": ("gcc", "-O2 -g", WRAP, ""),
    "msan": ("clang", "-O1 -g -fno-omit-frame-pointer -fsanitize=memory "
             "-fno-sanitize-recover=all", "", "-DNO_ALLOC_WRAP -DMSAN_BUILD"),
    "tsan": ("gcc", "-O1 -g -fsanitize=thread", "-lpthread", "-DNO_ALLOC_WRAP -DTSAN_BUILD"),
}
ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:"
                    "detect_stack_use_after_return=1:handle_abort=1:handle_segv=1:handle_sigfpe=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
    "MSAN_OPTIONS": "exitcode=99:abort_on_error=0:allocator_may_return_null=1",
    "TSAN_OPTIONS": "exitcode=99:halt_on_error=1:report_signal_unsafe=0:history_size=4",
    "LC_ALL": "C.UTF-8",
    "PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
    "HOME": "/nonexistent",
}
HARNESS_ERRORS = (90, 91, 92, 93, 94, 95)


class CheckError(Exception):
    pass


def sh(cmd, cwd=None, timeout=600):
    r = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors="replace",
                       env={**os.environ, **ENV, "HOME": "/tmp"}, timeout=timeout)
    if r.returncode != 0:
        raise CheckError("command failed (%d): %s\n%s" % (r.returncode, cmd, r.stdout[-4000:]))
    return r.stdout


class Builder:
    def __init__(self, scratch):
        self.scratch = scratch
        self.libs = {}
        self.exes = {}

    def lib_sources(self):
        src = sorted(glob.glob(os.path.join(SRC, "*.c")))
        return [s for s in src if not s.endswith("-test.c")
                and os.path.basename(s) != "simple_vector.c"]

    def lib(self, build):
        if build in self.libs:
            return self.libs[build]
        cc, cflags, _, _ = BUILDS[build]
        d = os.path.join(self.scratch, build)
        os.makedirs(d, exist_ok=True)
        objs, jobs = [], []
        for s in self.lib_sources():
            o = os.path.join(d, os.path.basename(s)[:-2] + ".o")
            objs.append(o)
            jobs.append("%s %s -w -fPIC -I%s -c %s -o %s" % (cc, cflags, SRC, s, o))
        with cf.ThreadPoolExecutor(NPROC) as ex:
            list(ex.map(lambda c: sh(c, cwd=SRC), jobs))
        self.libs[build] = " ".join(objs)
        return self.libs[build]

    def exe(self, harness, build):
        key = (harness, build)
        if key in self.exes:
            return self.exes[key]
        cc, cflags, lflags, hflags = BUILDS[build]
        objs = self.lib(build)
        exe = os.path.join(self.scratch, "%s-%s" % (harness, build))
        sh("%s %s %s -w -Werror=incompatible-pointer-types -Werror=int-conversion -Werror=implicit-function-declaration -I%s -I%s/harness %s/harness/%s.c -o %s %s %s -lm" %
           (cc, cflags, hflags, SRC, VERIF, VERIF, harness, exe, objs, lflags))
        self.exes[key] = exe
        return exe


class Result:
    def __init__(self):
        self.obs, self.maxi, self.hashes = {}, {}, set()
        self.samples, self.viols, self.done = [], [], 0
        self.notes = []


def run_proc(argv, cwd, wall):
    p = subprocess.Popen(argv, cwd=cwd, env=ENV, stdin=subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         start_new_session=True)
    try:
        out, err = p.communicate(timeout=wall)
        code = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, err = p.communicate()
        code = "wall"
    return code, out.decode(errors="replace"), err.decode(errors="replace")


def crash_signature(code, err):
    m = re.search(r"runtime error: (.*)", err)
    where = ""
    frames = re.findall(r"#\d+ (?:0x[0-9a-f]+ in )?(\S+) (/\S+?\.[ch])(?::\d+)?", err)
    for fn, path in frames:
        if "/harness/" not in path and "sanitizer" not in path:
            where = fn
            break
    if m:
        kind = "ub:" + re.sub(r"[^A-Za-z]+", "-", re.sub(r"0x[0-9a-f]+|\d+", "", m.group(1)))[:50]
    else:
        m = re.search(r"SUMMARY: (\w+): ([\w-]+)", err)
        kind = (m.group(1) + ":" + m.group(2)) if m else "exit:%s" % code
    return (kind + "@" + where).replace(" ", "_")


def run_shard(job, exe, prop, seed, start, count, stride, scratch, tag, thorough, wall):
    """Run cases start, start+stride, ...; goes on after a crash or a hang."""
    res = Result()
    progress = os.path.join(scratch, "progress-" + tag)
    done_upto = 0  # number of cases of this shard already dealt with
    restarts = 0
    while done_upto < count:
        if os.path.exists(progress):
            os.unlink(progress)
        s0 = start + done_upto*stride
        argv = [exe, "--prop", prop, "--seed", str(seed), "--start", str(s0),
                "--count", str(count - done_upto), "--stride", str(stride),
                "--progress", progress] + list(job.get("args", []))
        if thorough:
            argv.append("--thorough")
        else:
            argv += ["--limit", "20"]
        cwd = os.path.join(scratch, "cwd-" + tag)
        os.makedirs(cwd, exist_ok=True)
        code, out, err = run_proc(argv, cwd, wall)
        parse_output(out, res, seed)
        if code in (0, 10):
            if not re.search(r"^DONE ", out, re.M):
                # A harness may stop at a violation after which it cannot go on.
                if code == 10 and re.search(r"^VIOL ", out, re.M):
                    break
                raise CheckError("no DONE line from %s" % " ".join(argv))
            if job.get("stderr_silent") and err.strip():
                res.viols.append((prop, s0, "unexpected-stderr", err.strip()[:300], seed))
            if "ThreadSanitizer" in err:
                res.viols.append((prop, s0, crash_signature(99, err), first_lines(err), seed))
            break
        if code in HARNESS_ERRORS or code == -signal.SIGKILL:
            raise CheckError("harness failure %s: %s\n%s" % (code, " ".join(argv), err[-3000:]))
        if code == "wall":
            raise CheckError("wall clock limit reached: %s" % " ".join(argv))
        try:
            with open(progress, "rb") as f:
                case = int.from_bytes(f.read(8), "little") - 1
        except OSError:
            case = -1
        if case < 0:
            raise CheckError("crash outside any case (%s): %s\n%s" % (code, " ".join(argv), err[-3000:]))
        base = [exe, "--prop", prop, "--seed", str(seed), "--start", str(case), "--count", "1"]
        base += list(job.get("args", [])) + (["--thorough"] if thorough else [])
        if code == 97:
            c2, o2, e2 = run_proc(base + ["--limit", "120" if thorough else "60"], cwd, wall)
            if c2 == 97:
                res.viols.append((prop, case, "hang", "no end after %d s of CPU time" % (120 if thorough else 60), seed))
            elif c2 in (0, 10):
                parse_output(o2, res, seed)
                res.notes.append("case %d: time limit reached once, not reproduced" % case)
            else:
                res.viols.append((prop, case, crash_signature(c2, e2), first_lines(e2), seed))
        else:
            c2, o2, e2 = run_proc(base, cwd, wall)
            if c2 in (0, 10):
                # Needs the preceding cases: report from the first run.
                res.viols.append((prop, case, crash_signature(code, err),
                                  "(after the preceding cases of the shard) " + first_lines(err), seed))
            else:
                res.viols.append((prop, case, crash_signature(c2, e2), first_lines(e2), seed))
        res.done += (case - s0)//stride + 1
        done_upto = (case - start)//stride + 1
        restarts += 1
        if restarts >= 4 or (res.viols and res.viols[-1][2] == "hang"):
            break
    return res


def first_lines(err):
    keep = []
    for ln in err.splitlines():
        if re.search(r"runtime error|ERROR: |SUMMARY|WARNING: |#\d+ .* in ", ln):
            keep.append(ln.strip())
        if len(keep) >= 6:
            break
    return " | ".join(keep)[:700] if keep else err.strip()[-400:].replace("\n", " | ")


def parse_output(out, res, seed):
    lines = out.split("\n")
    if not out.endswith("\n"):
        lines.pop()  # line left unfinished by a process which died
    for ln in lines:
        w = ln.split(" ", 1)
        try:
            if w[0] == "OBS":
                k, v = w[1].rsplit(" ", 1)
                res.obs[k] = res.obs.get(k, 0) + int(float(v))
            elif w[0] == "MAX":
                k, v = w[1].rsplit(" ", 1)
                res.maxi[k] = max(res.maxi.get(k, float("-inf")), float(v))
            elif w[0] == "H":
                res.hashes.add(w[1])
            elif w[0] == "SAMPLE":
                res.samples.append("seed %d %s" % (seed, w[1]))
            elif w[0] == "DONE":
                res.done += int(w[1])
            elif w[0] == "VIOL":
                f = ln.split(" ", 4)
                res.viols.append((f[1], int(f[2]), f[3], f[4] if len(f) > 4 else "", seed))
        except (ValueError, IndexError):
            pass  # damaged line; the counts which are required are checked later


def merge(a, b, label):
    for k, v in b.obs.items():
        a.obs[k] = a.obs.get(k, 0) + v
    for k, v in b.maxi.items():
        a.maxi[k] = max(a.maxi.get(k, float("-inf")), v)
    a.hashes |= {label + h for h in b.hashes}
    a.samples += b.samples
    a.done += b.done
    a.notes += b.notes


def load_known(prop):
    known = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for ln in open(path):
            m = re.match(r"known: property=(\S+) match=(\S+) (.*)", ln.strip())
            if m and m.group(1) == prop:
                known.append((re.compile(m.group(2)), m.group(3)))
    return known


def run_check(prop, tier, seed):
    t0 = time.time()
    spec = checks.CHECKS[prop]
    thorough = tier == "thorough"
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    total = Result()
    viols = []
    try:
        builder = Builder(scratch)
        jobs = [j for j in spec["jobs"] if thorough or j.get("cases", (1, 1))[0] != 0]
        tasks = []
        # Build everything first (libraries in parallel inside).
        wanted = sorted({(j["harness"], j["build"]) for j in jobs if "python" not in j})
        for b in sorted({b for _, b in wanted}):
            builder.lib(b)
        with cf.ThreadPoolExecutor(NPROC) as ex:
            list(ex.map(lambda w: builder.exe(*w), wanted))
        wall = 7200 if thorough else 700
        with cf.ThreadPoolExecutor(NPROC) as ex:
            for ji, j in enumerate(jobs):
                if "python" in j:
                    tasks.append((ji, j, ex.submit(j["python"], dict(
                        scratch=scratch, prop=prop, tier=tier, seed=seed, builder=builder,
                        REPO=REPO, VERIF=VERIF, ENV=ENV, Result=Result, run_proc=run_proc,
                        CheckError=CheckError, parse_output=parse_output,
                        crash_signature=crash_signature, first_lines=first_lines, job=j))))
                    continue
                n = j["cases"][1 if thorough else 0]
                shards = min(j.get("shards", NPROC*2), n)
                for s in range(shards):
                    cnt = (n - s + shards - 1)//shards
                    tasks.append((ji, j, ex.submit(
                        run_shard, j, builder.exe(j["harness"], j["build"]), prop, seed, s, cnt,
                        shards, scratch, "%d-%d" % (ji, s), thorough, wall)))
            errors = []
            for ji, j, t in tasks:
                try:
                    r = t.result()
                except CheckError as e:
                    errors.append(e)
                    continue
                label = "%s/%s" % (j.get("harness", j.get("name", "py")), j.get("build", ""))
                merge(total, r, label)
                for v in r.viols:
                    viols.append(v + (ji,))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    # Missing observations: the run proves nothing.
    missing = [k for k, n in spec.get("require", {}).items() if total.obs.get(k, 0) < n]
    known = load_known(prop)
    shown_known = {}
    fresh = []
    for (p, case, sig, text, sd, ji) in viols:
        for rx, desc in known:
            if rx.search(sig + " " + text):
                shown_known[desc] = shown_known.get(desc, 0) + 1
                break
        else:
            fresh.append((p, case, sig, text, sd, ji))
    if errors and not fresh:
        raise errors[0]
    for desc in shown_known:
        print("KNOWN-FINDING: property=%s %s" % (prop, desc))
    ev = dict(
        property=prop, tier=tier, seed=seed, level=spec["level"],
        coverage=dict(
            evaluations=total.done, distinct_nontrivial=len(total.hashes),
            rule=spec["rule"], samples=total.samples[:12] or ["(none printed)"],
            observed={k: total.obs[k] for k in sorted(total.obs)},
            maxima={k: total.maxi[k] for k in sorted(total.maxi)},
            notes=total.notes,
            jobs=["%s/%s cases=%s" % (j.get("harness", j.get("name")), j.get("build", "-"),
                                      j.get("cases", ("-", "-"))[1 if thorough else 0]) for j in jobs]),
        assumptions=spec.get("assumptions", []),
        wall_s=round(time.time() - t0, 2), violations=len(fresh))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s" %
          (prop, tier, seed, total.done, len(total.hashes), time.time() - t0))
    for k in sorted(total.obs):
        print("  observed %s = %d" % (k, total.obs[k]))
    for k in sorted(total.maxi):
        print("  maximum %s = %.4g" % (k, total.maxi[k]))
    if fresh:
        rdir = os.path.join(VERIF, "replays", prop)
        os.makedirs(rdir, exist_ok=True)
        seen = set()
        for (p, case, sig, text, sd, ji) in fresh:
            if sig in seen:
                continue
            seen.add(sig)
            name = re.sub(r"[^A-Za-z0-9_.-]+", "_", "%s-seed%d-case%d-%s" % (tier, sd, case, sig))[:120]
            path = os.path.join(rdir, name + ".json")
            with open(path, "w") as f:
                json.dump(dict(property=prop, tier=tier, seed=sd, case=case, job=ji,
                               signature=sig, text=text,
                               how="python3 run.py --replay " + path), f, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  %s: case %d: %s" % (sig, case, text))
        return 1
    if total.done == 0 or missing:
        print("INCONCLUSIVE property=%s: nothing observed for %s" % (prop, missing or "any case"))
        return 2
    return 0


def replay(path):
    r = json.load(open(path))
    spec = checks.CHECKS[r["property"]]
    thorough = r["tier"] == "thorough"
    jobs = [j for j in spec["jobs"] if thorough or j.get("cases", (1, 1))[0] != 0]
    j = jobs[r["job"]]
    scratch = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        b = Builder(scratch)
        if "python" in j:
            res = j["python"](dict(
                scratch=scratch, prop=r["property"], tier=r["tier"], seed=r["seed"], builder=b,
                REPO=REPO, VERIF=VERIF, ENV=ENV, Result=Result, run_proc=run_proc,
                CheckError=CheckError, parse_output=parse_output, only=r["case"],
                crash_signature=crash_signature, first_lines=first_lines, job=j))
            for v in res.viols:
                print("  %s: case %d: %s" % (v[2], v[1], v[3]))
            if not res.viols:
                print("not reproduced with this case alone")
                return 0
            print("VIOLATION property=%s replay=%s" % (r["property"], path))
            return 1
        exe = b.exe(j["harness"], j["build"])
        argv = [exe, "--prop", r["property"], "--seed", str(r["seed"]), "--start", str(r["case"]),
                "--count", "1", "--verbose"] + list(j.get("args", []))
        if thorough:
            argv.append("--thorough")
        code, out, err = run_proc(argv, scratch, 600)
        sys.stdout.write(out)
        sys.stdout.write(err)
        print("exit", code)
        if code == 0:
            return 0
        print("VIOLATION property=%s replay=%s" % (r["property"], path))
        return 1
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def setup():
    for t in ("gcc", "clang", "python3"):
        if not shutil.which(t):
            print("missing tool", t)
            return 2
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    print("tools present; checks build from %s at every run" % REPO)
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or "1"))
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    try:
        if a.setup:
            return setup()
        if a.replay:
            return replay(a.replay)
        if a.prop not in checks.CHECKS:
            print("unknown property", a.prop)
            return 2
        return run_check(a.prop, a.tier, a.seed)
    except CheckError as e:
        print("CHECK-ERROR:", e)
        return 2
    except subprocess.TimeoutExpired as e:
        print("CHECK-ERROR: timeout", e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
