"""Job of the check of the Yorick plug-in: builds the plug-in from the current
sources with the sanitizers, runs the scenarios of harness/yorick/yscn.py in
the interpreter and judges the log against the C interface of the library."""
import concurrent.futures as cf, glob, os, re, shutil, subprocess, sys

NPROC = max(1, min(8, os.cpu_count() or 1))
SAN = "-fsanitize=address,undefined,float-cast-overflow -fno-sanitize-recover=all -fno-omit-frame-pointer"
WRAP = "-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,--wrap=yget_use,--wrap=ydrop_use"


def first_existing(*names):
    for n in names:
        if os.path.exists(n):
            return n
    return None


def build(ctx):
    R, V, d = ctx["REPO"], ctx["VERIF"], os.path.join(ctx["scratch"], "yorick")
    err = ctx["CheckError"]
    os.makedirs(d, exist_ok=True)
    yh = first_existing("/usr/lib/yorick")
    if not yh:
        raise err("Yorick is not installed")
    src, hy = os.path.join(R, "src"), os.path.join(V, "harness", "yorick")

    def sh(cmd):
        r = subprocess.run(cmd, shell=True, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                           env={**os.environ, **ctx["ENV"], "HOME": "/tmp"}, timeout=600)
        if r.returncode != 0:
            raise err("command failed (%d): %s\n%s" % (r.returncode, cmd, r.stdout[-4000:]))
    for f in (os.path.join(R, "yorick", "opky.i"), os.path.join(hy, "vp.i")):
        shutil.copy(f, d)
    sh("%s/lib/codger w opky opky.i vp.i" % yh)
    cc = "gcc -O1 -g -w -fPIC -I%s " % src
    inst = cc + SAN + " -DPLUG_IN -DNDEBUG -I%s/include -I%s/yorick -I. " % (yh, R)
    lib = ctx["builder"].lib_sources()
    plug = sorted(glob.glob(os.path.join(R, "yorick", "*.c"))) + [os.path.join(hy, "vp.c"), os.path.join(hy, "vpeval.c"), os.path.join(d, "ywrap.c")]
    cmds, oi, op = [], [], []
    for f in lib + plug:
        o = os.path.join(d, "i-" + os.path.basename(f)[:-2] + ".o")
        oi.append(o)
        cmds.append("%s -c %s -o %s" % (inst, f, o))
    for f in lib + [os.path.join(hy, "vpshim.c"), os.path.join(hy, "vpeval.c")]:
        o = os.path.join(d, "p-" + os.path.basename(f)[:-2] + ".o")
        op.append(o)
        # Same optimization level: the results are compared bit for bit.
        cmds.append("%s -DNDEBUG -c %s -o %s" % (cc, f, o))
    with cf.ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(sh, cmds))
    sh("gcc -shared %s %s -o opky.so %s -lm" % (SAN, WRAP, " ".join(oi)))
    sh("gcc -shared -o ref.so %s -lm" % " ".join(op))
    libs = []
    for n in ("libasan.so", "libubsan.so"):
        r = subprocess.run(["gcc", "-print-file-name=" + n], stdout=subprocess.PIPE, text=True)
        libs.append(os.path.realpath(r.stdout.strip()))
    return d, ":".join(libs)


def shard(ctx, d, preload, start, count, tag, wall):
    res = ctx["Result"]()
    env = dict(ctx["ENV"])
    out = os.path.join(d, "run-" + tag)
    os.makedirs(out, exist_ok=True)
    yenv = dict(env, LD_PRELOAD=preload, HOME=out,
                ASAN_OPTIONS="detect_leaks=0:exitcode=99:allocator_may_return_null=1:handle_segv=1:handle_sigfpe=0:handle_abort=1")
    scn = os.path.join(ctx["VERIF"], "harness", "yorick", "yscn.py")
    yorick = first_existing("/usr/bin/yorick", "/usr/local/bin/yorick")
    pos, end, restarts = start, start + count, 0

    def run(argv, e, wall):
        p = subprocess.Popen(argv, cwd=out, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
        try:
            o, er = p.communicate(timeout=wall)
            return p.returncode, o.decode(errors="replace"), er.decode(errors="replace")
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            o, er = p.communicate()
            return "wall", o.decode(errors="replace"), er.decode(errors="replace")
    while pos < end:
        n = min(end - pos, 60)
        for f in glob.glob(os.path.join(out, "*")):
            os.unlink(f)
        a = [str(ctx["seed"]), str(pos), str(n)]
        c, o, e = run([sys.executable, scn, "gen"] + a + [d, out], env, 300)
        if c != 0:
            raise ctx["CheckError"]("yscn.py gen: %s" % e[-2000:])
        yc, yo, ye = run([yorick, "-batch", os.path.join(out, "s.i")], yenv, wall)
        c, o, e = run([sys.executable, scn, "ref"] + a + [out, os.path.join(d, "ref.so")], env, wall)
        m = re.search(r"^STOPPED (\d+)", o, re.M)
        if c != 0 and c != "wall" and not (c == 3):
            raise ctx["CheckError"]("yscn.py ref: %s" % (o + e)[-2000:])
        if c == "wall":
            raise ctx["CheckError"]("reference: time limit reached")
        keep = [ln for ln in o.splitlines() if not ln.startswith("VIOL") or " stopped" not in ln.split(" ", 4)[3]]
        ctx["parse_output"]("\n".join(ln for ln in o.splitlines() if not (ln.startswith("VIOL ") and ln.split(" ", 4)[3].endswith("-stopped"))), res, ctx["seed"])
        if yc == "wall" or m or re.search(r"ERROR: AddressSan|runtime error", ye):
            case = int(m.group(1)) if m else pos + n - 1
            if yc == "wall":
                sig, text = "hang", "the interpreter does not come back (%s s)" % wall
            elif re.search(r"ERROR: AddressSan|runtime error", ye):
                sig, text = ctx["crash_signature"](yc, ye), ctx["first_lines"](ye)
            else:
                what = [ln for ln in o.splitlines() if ln.startswith("VIOL ")][-1].split(" ", 4)
                sig = what[3]
                text = what[4] + " | " + " / ".join((yo + ye).strip().splitlines()[-6:])[:500]
            res.viols.append((ctx["prop"], case, sig, text, ctx["seed"]))
            restarts += 1
            if restarts >= 4 or sig == "hang":
                break
            pos = case + 1
        else:
            pos += n
    return res


def job(ctx):
    d, preload = build(ctx)
    thorough = ctx["tier"] == "thorough"
    j = ctx["job"]
    only = ctx.get("only")
    total = j["cases"][1 if thorough else 0]
    first = 0
    if only is not None:
        first, total = only, 1
    shards = min(NPROC, total)
    wall = 1800 if thorough else 240
    res = ctx["Result"]()
    bounds = [first + total*k//shards for k in range(shards + 1)]
    with cf.ThreadPoolExecutor(NPROC) as ex:
        fs = [ex.submit(shard, ctx, d, preload, bounds[k], bounds[k + 1] - bounds[k], str(k), wall) for k in range(shards)]
        for f in fs:
            r = f.result()
            for k, v in r.obs.items():
                res.obs[k] = res.obs.get(k, 0) + v
            for k, v in r.maxi.items():
                res.maxi[k] = max(res.maxi.get(k, float("-inf")), v)
            res.hashes |= r.hashes
            res.samples += r.samples
            res.viols += r.viols
            res.done += r.done
            res.notes += r.notes
    return res
