#!/usr/bin/env python3
"""Scenarios for the Yorick plug-in.

  yscn.py gen SEED START COUNT DIR      write the interpreter's script DIR/s.i
  yscn.py ref SEED START COUNT DIR LIB  same scenarios through the C interface:
                                        compare with the interpreter's log

Each scenario is described once: the text of the interpreter's instructions
and, next to it, what the C interface does with the same data. The
interpreter's script writes an exact log (bit patterns); "ref" replays and
judges the log line by line.
"""
import ctypes as C, math, os, random, re, struct, sys

TASK = dict(ERROR=-1, START=0, COMPUTE_FG=1, NEW_X=2, FINAL_X=3, WARNING=4)
KEYS = dict(delta=1, epsilon=2, gatol=3, grtol=4, stpmin=5, stpmax=6, fmin=7, flags=8, mem=9)


# ---------------------------------------------------------------- formatting
def f32(v):
    return struct.unpack("<f", struct.pack("<f", v))[0]


def dim(dims):
    return "[%s]" % ",".join(map(str, dims)) if dims else ""


def fi(*v, dims=()):
    return "i%s:%s" % (dim(dims), ",".join(str(int(k)) for k in v))


def fd(*v, dims=()):
    return "d%s:%s" % (dim(dims), ",".join("%016x" % struct.unpack("<Q", struct.pack("<d", k))[0] for k in v))


def ff(*v, dims=()):
    return "f%s:%s" % (dim(dims), ",".join("%08x" % struct.unpack("<I", struct.pack("<f", k))[0] for k in v))


def fq(s):
    if isinstance(s, str):
        s = s.encode()
    return "q:" + "".join(chr(b) if 32 < b < 127 and b != 37 else "%%%02x" % b for b in s)


def lit(v):
    if isinstance(v, int):
        return str(v)
    s = "%.17g" % v
    return s if re.search(r"[.en]", s) else s + "."


# ---------------------------------------------------------------- reference
class Lib:
    def __init__(self, path):
        L = self.L = C.CDLL(path)
        D, P, I, N = C.c_double, C.c_void_p, C.c_int, C.c_long

        def f(name, res, *args):
            fn = getattr(L, name)
            fn.restype, fn.argtypes = res, list(args)
            setattr(self, name, fn)
        f("vp_eval", D, N, N, N, P, P)
        f("vp_cons", None, N, N, N, P, P)
        f("vs_new", P, I, I, N, I, P, P, I, P, I, P)
        f("vs_ok", I, P)
        f("vs_free", None, P)
        f("vs_start", I, P, P)
        f("vs_iterate", I, P, P, D, P)
        for k in ("task", "status"):
            f("vs_" + k, I, P)
        for k in ("iterations", "evaluations", "restarts"):
            f("vs_" + k, N, P)
        for k in ("gnorm", "step"):
            f("vs_" + k, D, P)
        f("vs_reason", C.c_char_p, I)
        f("vs_name", C.c_char_p, P)
        f("vs_description", C.c_char_p, P)
        f("vs_constant", N, C.c_char_p, P)
        f("newuoa_create", P, N, N, D, D, N, N)
        f("newuoa_iterate", I, P, D, P)
        f("cobyla_create", P, N, N, D, D, N, N)
        f("cobyla_iterate", I, P, D, P, P)
        for s in ("newuoa", "cobyla"):
            f(s + "_restart", I, P)
            f(s + "_get_status", I, P)
            f(s + "_get_nevals", N, P)
            f(s + "_get_rho", D, P)
            f(s + "_delete", None, P)
            f(s + "_reason", C.c_char_p, I)
        for p, T in (("d", C.c_double), ("s", C.c_float)):
            # a, lda, b, delta, rtol, atol, itmax, par, f, x, iter, z, wa1, wa2
            f("opk_%sgqt" % p, I, N, P, N, P, T, T, T, N, P, P, P, P, P, P, P)


class Arr:
    """Variables, as the interpreter has them: type and dimensions."""
    def __init__(self, single, dims, vals):
        self.single, self.dims = single, tuple(dims)
        self.n = len(vals)
        self.a = ((C.c_float if single else C.c_double)*len(vals))(*vals)

    def fmt(self):
        return (ff if self.single else fd)(*self.a, dims=self.dims)

    def fmts(self, vals):
        return (ff if self.single else fd)(*vals, dims=self.dims)

    def d(self):
        return (C.c_double*self.n)(*self.a)


def yarr(t, dims, vals):
    """Expression of an array."""
    if not dims:
        return "%s(%s)" % (t, lit(vals[0]))
    return "VPA(%s, [%s], [%s])" % (t, ", ".join(map(str, (len(dims),) + tuple(dims))), ", ".join(lit(v) for v in vals))


class Scen:
    def __init__(self, r, sid, mode, lib):
        self.r, self.sid, self.mode, self.lib = r, sid, mode, lib
        self.y, self.pre, self.exp, self.obs, self.k = [], [], [], [], 0
        self.viol = []

    # interpreter side
    def Y(self, *lines):
        self.y += lines

    def top(self, *lines):
        self.pre += lines

    # expected log line: list of strings or predicates
    def E(self, tag, *vals):
        self.exp.append(("%d.%s" % (self.sid, tag), list(vals)))

    def tag(self, t):
        return '"%d.%s"' % (self.sid, t)

    def see(self, what):
        self.obs.append(what)

    def bad(self, params, args, code, tag="bad"):
        """An incorrect call: an interpreter's error which can be caught."""
        self.k += 1
        fn = "vpt%d_%d" % (self.sid, self.k)
        self.top("func %s(%s) {\n  if (catch(-1)) { vp_log, %s, \"err\", strpart(catch_message, 1:12); return; }\n  %s;\n  vp_log, %s, \"accepted\";\n}" %
                 (fn, params or "void", self.tag(tag), code, self.tag(tag)))
        self.Y("%s, %s;" % (fn, args))
        what = code

        def pred(s):
            return s != "q:" and not re.match(r"q:(SIG|Segm|Bus|Float)", s)
        if self.mode == "ref":
            self.E(tag, fq("err"), ("a catchable error for `%s'" % what, pred))
            self.see("incorrect-calls")


# ---------------------------------------------------------------- optimizers
def pick_dims(r):
    k = r.random()
    if k < 0.1:
        return ()
    if k < 0.16:  # many dimensions
        d = [r.choice((1, 1, 1, 2)) for _ in range(r.randint(4, 10))]
        while math.prod(d) > 16:
            d[d.index(2)] = 1
        return tuple(d)
    if k < 0.6:
        return (r.choice((1, 2, 2, 3, 4, 5, 8, 12)),)
    if k < 0.85:
        return (r.randint(1, 4), r.randint(1, 4))
    return (r.randint(1, 3), r.randint(1, 2), r.randint(1, 3))


def dims_expr(r, dims):
    if not dims:
        return r.choice(("[]", "[0]"))
    full = "[%s]" % ", ".join(map(str, (len(dims),) + dims))
    if len(dims) == 1 and r.random() < 0.5:
        return str(dims[0]) if r.random() < 0.7 else "int(%d)" % dims[0]
    return full if r.random() < 0.7 else "short(%s)" % full


def pick_opts(r, alg):
    """(keyword, interpreter's expression, value or None when left as default)"""
    out = []

    def add(k, v, expr=None):
        out.append((k, expr or lit(v), v))
    if r.random() < 0.3:
        add("delta", r.choice((0.01, 0.05, 0.5, 1.5)))
    if r.random() < 0.3:
        add("epsilon", r.choice((0.0, 1e-3, 0.1)))
    if r.random() < 0.3:
        add("gatol", r.choice((0.0, 1e-3, 0.1, 1)))
    if r.random() < 0.4:
        add("grtol", r.choice((0.0, 1e-2, 1e-4)))
    if r.random() < 0.2:
        add("stpmin", r.choice((0.0, 1e-10)))
    if r.random() < 0.2:
        add("stpmax", r.choice((1e3, 10.0, 1e10)))
    if alg == 0:
        if r.random() < 0.5:
            fl = r.choice((0, 1, 2, 3, 4, 5, 6, 7, 8)) | r.choice((0, 0x100)) | r.choice((0, 0x200))
            if fl & 0xff == 0:
                fl = 0
            add("flags", fl)
        if r.random() < 0.5:
            add("fmin", r.choice((0.0, -1.0, -50.0, 0)))
    elif r.random() < 0.6:
        add("mem", r.choice((1, 2, 3, 7, 40)))
    if r.random() < 0.3:
        ks = [k for k in ("delta", "epsilon", "gatol", "grtol", "stpmin", "stpmax") + (("flags", "fmin") if alg == 0 else ("mem",))
              if k not in [o[0] for o in out]]
        for k in r.sample(ks, min(len(ks), r.randint(1, 3))):
            out.append((k, "[]", None))
    r.shuffle(out)
    return out


def pick_bounds(r, n, single):
    """per side: (kind, interpreter's expression maker, values in the reference)"""
    def side(lo):
        k = r.random()
        if k < 0.35:
            return (0, r.choice(("", "[]")), None)
        if k < 0.6:
            v = r.choice((-1.5, -1, 0, -0.5)) if lo else r.choice((1.5, 1, 0.5, 2))
            t = r.choice(("", "int", "float", "short", "char")) if v == int(v) and v >= 0 else r.choice(("", "float"))
            e = lit(v)
            return (1, "%s(%s)" % (t, e) if t else e, [float(v)])
        t = r.choice(("double", "double", "float", "int", "long", "short"))
        vals = [r.choice((-2.0, -1.0, -0.0, 0.0)) if lo else r.choice((0.0, 1.0, 2.0)) for _ in range(n)]
        if t in ("double", "float"):
            vals = [v + (r.choice((0, 0.25, -0.125)) if lo else r.choice((0, 0.5, 0.25))) for v in vals]
            if t == "double" and r.random() < 0.4:
                vals = [v + (-0.1 if lo else 0.1) for v in vals]
        else:
            vals = [v + 0.0 for v in vals]
        return (2, t, vals)
    if r.random() < 0.4:
        return ((0, "", None), (0, "", None))
    return (side(True), side(False))


class Opt:
    """An optimizer on both sides."""
    def __init__(self, s, name="opt"):
        r = s.r
        self.s, self.name = s, name
        self.alg = r.choice((0, 1, 1, 1, 2))
        self.single = r.random() < 0.4
        self.dims = pick_dims(r)
        self.n = 1
        for d in self.dims:
            self.n *= d
        self.opts = pick_opts(r, self.alg)
        self.lo, self.up = pick_bounds(r, self.n, self.single) if self.alg else ((0, "", None),)*2
        if not self.dims:  # arrays of bounds have the dimensions of the variables
            self.lo, self.up = [b if b[0] != 2 else (0, "", None) for b in (self.lo, self.up)]
        args = [dims_expr(r, self.dims)] + ["%s=%s" % (k, e) for k, e, v in self.opts]
        self.bexpr = {}
        for k, b in (("lower", self.lo), ("upper", self.up)):
            if b[0] == 0 and b[1]:
                args.append("%s=[]" % k)
            elif b[0] == 1:
                args.append("%s=%s" % (k, b[1]))
            elif b[0] == 2:
                e = yarr(b[1], self.dims, [int(v) for v in b[2]] if b[1] in ("int", "long", "short") else b[2])
                if r.random() < 0.5:  # the array is in a variable, later changed or forgotten
                    s.Y("b_%s = %s;" % (k, e))
                    e = "b_" + k
                self.bexpr[k] = e
                args.append("%s=%s" % (k, e))
        sg = r.choice(("1", "1n", "'\\1'", "\"yes\"", "2.5")) if self.single else r.choice(("", "", "0", "[]", "0n"))
        if sg:
            args.append("single=" + sg)
        head, tail = args[0], args[1:]
        r.shuffle(tail)
        tail.insert(r.randint(0, len(tail)), head)
        self.create = "%s(%s)" % (("opk_nlcg", "opk_vmlmb", "opk_blmvm")[self.alg], ", ".join(tail))
        self.ref = None
        if s.mode == "ref":
            L = s.lib
            given = [(KEYS[k], float(v)) for k, e, v in self.opts if v is not None]
            ks = (C.c_int*max(1, len(given)))(*[g[0] for g in given])
            vs = (C.c_double*max(1, len(given)))(*[g[1] for g in given])

            def b(x):
                return (x[0], (C.c_double*len(x[2]))(*x[2])) if x[0] else (0, None)
            lk, lv = b(self.lo)
            uk, uv = b(self.up)
            self.keep = (lv, uv)
            self.ref = L.vs_new(self.alg, int(self.single), self.n, len(given), ks, vs, lk, lv, uk, uv)
            if not L.vs_ok(self.ref):
                raise SystemExit("HARNESS reference optimizer not created: %s" % self.create)

    def new(self):
        self.s.Y("%s = %s;" % (self.name, self.create))
        if self.s.mode == "ref":
            self.s.see(("nlcg", "vmlmb", "blmvm")[self.alg])
            self.s.see("single" if self.single else "double")
            for b in (self.lo, self.up):
                self.s.see(("no-bound", "scalar-bound", "array-bound")[b[0]])

    def type(self):
        return "float" if self.single else "double"

    def query(self, tag, x=None):
        s, o = self.s, self.name
        s.Y("vp_log, %s, %s.task, %s.status, %s.iterations, %s.evaluations, %s.restarts, %s.gnorm, %s.step, opk_get_task(%s), opk_get_status(%s)%s;" %
            ((s.tag(tag),) + (o,)*9 + (", " + x[0] if x else "",)))
        if s.mode == "ref":
            L, h = s.lib, self.ref
            v = [fi(L.vs_task(h)), fi(L.vs_status(h)), fi(L.vs_iterations(h)), fi(L.vs_evaluations(h)), fi(L.vs_restarts(h)),
                 fd(L.vs_gnorm(h)), fd(L.vs_step(h)), fi(L.vs_task(h)), fi(L.vs_status(h))]
            s.E(tag, *(v + ([x[1].fmt()] if x else [])))

    def texts(self, tag):
        s, o = self.s, self.name
        s.Y("vp_log, %s, %s.name, %s.description, %s.reason, %s.size, %s.dims, (%s.single ? 1 : 0), %s.lower, %s.upper, sum(print(%s));" % ((s.tag(tag),) + (o,)*9))
        if s.mode == "ref":
            L, h = s.lib, self.ref
            nm = fq(L.vs_name(h))

            def bound(b):
                if b[0] == 0:
                    return "v"
                if b[0] == 1:
                    return fd(b[2][0])
                return (ff if self.single else fd)(*b[2], dims=self.dims)
            dims = (len(self.dims),) + self.dims
            v = [nm, fq(L.vs_description(h)), fq(L.vs_reason(L.vs_status(h))), fi(self.n), fi(*dims, dims=(len(dims),)), fi(1 if self.single else 0),
                 bound(self.lo), bound(self.up), ("text naming the method", lambda t: nm[2:] in t.replace("\\", "").replace("%5c", ""))]
            s.E(tag, *v)

    def free(self):
        if self.ref:
            self.s.lib.vs_free(self.ref)
            self.ref = None


BAD_OPT = ("opk_start(o)", "opk_start(o, [])", "opk_start(o, \"a\")", "opk_start(o, 1:5)", "opk_start(o, sin)", "opk_start(o, o)",
           "opk_start(1, x)", "opk_start([], x)", "opk_start(x, o)", "opk_start(o, x, x)", "opk_start(o, array(structof(x), 3, 7))",
           "opk_start(o, array(structof(x), dimsof(x), 2))", "opk_iterate(o, x, 1.0, array(structof(x), dimsof(x), 2))", "opk_iterate(o, array(structof(x), dimsof(x), 2), 1.0, x)",
           "opk_start(o, (structof(x)==float ? double : float)(x))", "opk_start(o, long(0*x))", "opk_iterate(o, x, 1.0)", "opk_iterate(o, x, 1.0, x, x)",
           "opk_iterate(o, x, [1.0, 2.0], x)", "opk_iterate(o, x, \"a\", x)", "opk_iterate(o, x, 1i, x)", "opk_iterate(o, x, [], x)", "opk_iterate(o, x, 1.0, [])",
           "opk_iterate(o, x, 1.0, array(structof(x), 3, 7))", "opk_iterate(o, array(structof(x), 3, 7), 1.0, x)", "opk_iterate(o, x, 1.0, int(0*x))",
           "opk_iterate(o, x, 1.0, (structof(x)==float ? double : float)(x))", "opk_iterate(o, 1.0, x, x, x)", "opk_iterate(x, x, 1.0, x)",
           "opk_get_status()", "opk_get_status(x)", "opk_get_task([])", "opk_get_task(o, o)", "opk_get_reason(1.5)", "opk_get_reason(\"a\")", "opk_get_reason([1,2])",
           "o(1)", "o(\"task\")", "opk_get_task(cobyla_create(2,0,1.0,0.1,0,10))", "cobyla_iterate(o, 1.0, x)", "newuoa_iterate(o, 1.0, x)", "newuoa_restart(o)", "cobyla_restart(o)")
BAD_NEW = ("opk_nlcg(0)", "opk_nlcg(delta=1)", "opk_vmlmb(mem=3)", "opk_vmlmb(lower=0)", "opk_nlcg(-1)", "opk_nlcg(1.5)", "opk_nlcg([1])", "opk_nlcg([1,0])", "opk_nlcg([2,3])", "opk_nlcg([-1,3])", "opk_nlcg([2,-3,-4])", "opk_vmlmb([2,-1,-1])", "opk_vmlmb([3,2,-1,-2],upper=1)", "opk_nlcg([[1,2],[3,4]])",
           "opk_nlcg(\"a\")", "opk_nlcg(5,5)", "opk_nlcg(5,foo=1)", "opk_nlcg(5,mem=1)", "opk_nlcg(5,lower=1)", "opk_nlcg(5,upper=1)", "opk_nlcg(5,flags=1.5)", "opk_nlcg(5,flags=-1)",
           "opk_nlcg(5,flags=9)", "opk_nlcg(5,flags=[1,2])", "opk_nlcg(5,flags=\"a\")", "opk_nlcg(5,delta=-1)", "opk_nlcg(5,delta=0)", "opk_nlcg(5,delta=\"a\")",
           "opk_nlcg(5,delta=1i)", "opk_nlcg(5,delta=[.1,.1])", "opk_nlcg(5,epsilon=1)", "opk_nlcg(5,epsilon=-.1)", "opk_nlcg(5,gatol=-.1)", "opk_nlcg(5,grtol=-.1)",
           "opk_nlcg(5,stpmin=-.1)", "opk_nlcg(5,stpmin=1,stpmax=.5)", "opk_nlcg(5,fmin=\"a\")", "opk_nlcg(5,fmin=[1,2])", "opk_nlcg(2^62)", "opk_nlcg([2,2^32,2^32])",
           "opk_nlcg([3,2^21,2^21,2^22])", "opk_nlcg([11,1,1,1,1,1,1,1,1,1,1,1])", "opk_nlcg([2,2^33,2^31])", "opk_nlcg([2,2^62,5])",
           "opk_vmlmb(5,mem=0)", "opk_vmlmb(5,mem=-3)", "opk_vmlmb(5,mem=1.5)", "opk_vmlmb(5,mem=[1,2])", "opk_vmlmb(5,fmin=1)", "opk_vmlmb(5,lower=\"a\")", "opk_vmlmb(5,lower=1i)",
           "opk_vmlmb(5,lower=array(1.,4))", "opk_vmlmb(5,lower=array(1.,5,1))", "opk_vmlmb([2,5,1],lower=array(1.,5))", "opk_vmlmb([2,2,3],lower=array(1.,2,3,2))", "opk_vmlmb([2,2,3],upper=array(1.,2,4))", "opk_vmlmb([2,2,3],upper=array(1.,2,2))", "opk_vmlmb([],lower=array(1.,1))", "opk_vmlmb([2,2,3],upper=array(1.,3,2))",
           "opk_vmlmb(5,lower=opk_vmlmb(5))", "opk_vmlmb(5,lower=array(pointer,5))", "opk_vmlmb(5,upper=1:5)", "opk_vmlmb(5,upper=sin)", "opk_vmlmb(5,lower=1,upper=\"a\")",
           "opk_vmlmb(5,lower=[1,2,3,4,5],upper=[1,2])", "opk_vmlmb(5,lower=array(1.0f,5),upper=array(\"a\",5))", "opk_blmvm(5,mem=0)", "opk_blmvm(5,5)", "opk_blmvm()(1)", "opk_blmvm(5,foo=1)",
           "opk_vmlmb(5,epsilon=1)", "opk_vmlmb(5,delta=0)", "opk_vmlmb(5,gatol=-1)", "opk_vmlmb(5,stpmin=2,stpmax=1)", "opk_vmlmb(5,single=1,lower=array(1.,4))", "opk_vmlmb(-5)", "opk_vmlmb([1,-5])",
           "opk_get_constant()", "opk_get_constant(1)", "opk_get_constant(\"OPK_SUCCESS\",\"a\")", "opk_get_constant([\"OPK_SUCCESS\",\"a\"])",
           "cobyla_create(2,0,1.,.1,0)", "cobyla_create(0,0,1.,.1,0,10)", "cobyla_create(-1,0,1.,.1,0,10)", "cobyla_create(2,-1,1.,.1,0,10)", "cobyla_create(2,0,1.,2.,0,10)",
           "cobyla_create(2,0,1.,0.,0,10)", "cobyla_create(2,0,1.,-1.,0,10)", "cobyla_create(2,0,1.,.1,0,0)", "cobyla_create(2,0,\"a\",.1,0,10)", "cobyla_create(2.5,0,1.,.1,0,10)", "cobyla_create([2,3],0,1.,.1,0,10)",
           "cobyla_create(2^62,2^62,1.,.1,0,10)", "cobyla_create(2^31,0,1.,.1,0,10)", "cobyla_create(2,0,1.,.1,0,10,10)",
           "newuoa_create(2,5,1.,.1,0)", "newuoa_create(2,5,1.,.1,0,0)", "newuoa_create(2,3,1.,.1,0,10)", "newuoa_create(2,7,1.,.1,0,10)", "newuoa_create(-3,0,1.,.1,0,10)", "newuoa_create(1,3,1.,.1,0,10)",
           "newuoa_create(2,5,1.,2.,0,10)", "newuoa_create(2,5,1.,0.,0,10)", "newuoa_create(2^31,2^32+1,1.,.1,0,10)", "newuoa_create(2^40,2^41+1,1.,.1,0,10)", "newuoa_create(2,\"a\",1.,.1,0,10)", "newuoa_create(2,5,[1.,2.],.1,0,10)",
           "opk_scaling([1,2],[1,0])", "opk_scaling([1,2],1)", "opk_scaling([1,2],\"a\")", "opk_scaling([1,2],[-1.,1.])", "opk_minimize(sin,\"a\")", "opk_minimize(sin,[])", "opk_minimize(sin,[1.,2.],nlcg=1,blmvm=1)",
           "opk_minimize(sin,[1.,2.],nlcg=1,mem=1)", "opk_minimize(sin,[1.,2.],nlcg=1,lower=0)", "opk_minimize(sin,[1.,2.],lower=[0.,0.,0.])", "opk_minimize(sin,[1.,2.],gatol=-1)",
           "cobyla_reason(1.5)", "cobyla_reason(\"a\")", "newuoa_reason(1.5)", "newuoa_reason([])", "cobyla_restart(1)", "newuoa_restart([])", "newuoa_minimize(sin,[1.,2.],.1,.2)", "cobyla_minimize(sin,[],[1.,2.],.1,.2)")


def vals(r, n, a=-2.5, b=2.5):
    return [r.choice((r.uniform(a, b), float(round(r.uniform(a, b))))) for _ in range(n)]


def s_opt(s):
    """Reverse communication: lock-step with the C interface."""
    r = s.r
    o = Opt(s)
    o.new()
    o.texts("new")
    x0 = vals(r, o.n)
    if o.single:
        x0 = [f32(v) for v in x0]
    L = s.lib
    X = Arr(o.single, o.dims, x0)
    kind, seed = r.randint(0, 4), r.randint(1, 10**6)
    if r.random() < (0.5 if not o.dims else 0.08):
        kind = 5
    t = o.type()
    s.Y("x = %s;" % yarr(t, o.dims, x0), "kind = %d; seed = %d;" % (kind, seed))
    if r.random() < 0.15:  # not started
        o.query("fresh", ("x", X))
        if r.random() < 0.5:
            s.Y("g = x; task = opk_iterate(opt, x, 1.0, g);", "vp_log, %s, task, x, g;" % s.tag("early"))
            if s.mode == "ref":
                G = Arr(o.single, o.dims, x0)
                k = L.vs_iterate(o.ref, X.a, 1.0, G.a)
                s.E("early", fi(k), X.fmt(), G.fmt())
                s.see("not-started")
            o.query("fresh2", ("x", X))
    alias = r.random() < 0.3
    for run in range(r.choice((1, 1, 1, 2, 3))):
        if run:
            x1 = vals(r, o.n)
            if o.single:
                x1 = [f32(v) for v in x1]
            if r.random() < 0.5:
                s.Y("x = %s;" % yarr(t, o.dims, x1))
                X = Arr(o.single, o.dims, x1)
            s.see("restarted")
        s.Y("task = opk_start(opt, x);", "vp_log, %s, task;" % s.tag("start"))
        if s.mode == "ref":
            task = L.vs_start(o.ref, X.a)
            s.E("start", fi(task))
        o.query("started", ("x", X))
        if alias and run == 0:
            s.Y("opt2 = opt; opt = []; opt = opt2; opt2 = [];")
        if run == 0:
            for k, e in o.bexpr.items():
                if e.startswith("b_"):
                    s.Y("%s = [];" % e)
        nst = r.choice((3, 10, 25, 60))
        for chunk in range(r.randint(1, 2)):
            s.Y("for (k = 1; k <= %d && (task == OPK_TASK_COMPUTE_FG || task == OPK_TASK_NEW_X); ++k) {" % nst,
                "  if (task == OPK_TASK_COMPUTE_FG) { f = vp_f(kind, seed, x); g = vp_g(kind, seed, x); }",
                "  task = opk_iterate(opt, x, f, g);",
                "  vp_log, %s, task, x, f, g;" % s.tag("step"))
            y0 = s.y
            s.y = []
            if s.mode == "ref":
                ex = s.exp
                xs = X
                k = 0
                f = G = None
                if chunk:
                    f, G = self_fg
                while k < nst and task in (TASK["COMPUTE_FG"], TASK["NEW_X"]):
                    if task == TASK["COMPUTE_FG"]:
                        gd = (C.c_double*o.n)()
                        f = L.vp_eval(kind, seed, o.n, X.d(), gd)
                        G = Arr(o.single, o.dims, list(gd))
                        s.see("evaluations")
                    task = L.vs_iterate(o.ref, X.a, f, G.a)
                    s.E("step", fi(task), X.fmt(), fd(f), G.fmt())
                    o.query("state")
                    if task == TASK["NEW_X"]:
                        s.see("iterates")
                    if task == TASK["FINAL_X"]:
                        s.see("converged")
                    if task == TASK["WARNING"]:
                        s.see("warnings")
                    k += 1
                self_fg = (f, G)
                s.y = []
                # text of the query once
            o2 = s.exp
            keep = len(s.exp)
            o.query("state")
            del s.exp[keep:]
            q = s.y
            s.y = y0 + ["  " + z for z in q] + ["}"]
            if r.random() < 0.35:
                for _ in range(r.randint(1, 3)):
                    s.bad("o, x", "opt, x", r.choice(BAD_OPT))
                o.query("after", ("x", X))
            if r.random() < 0.1:
                s.Y("opk_init;")
    o.texts("end")
    o.query("end", ("x", X))
    o.free()


def s_min(s):
    """Driver opk_minimize."""
    r, L = s.r, s.lib
    o = Opt(s)
    n, dims = o.n, o.dims
    kind, seed = r.randint(0, 4), r.randint(1, 10**6)
    t0 = r.choice(("double", "double", "float", "long", "int"))
    x0 = vals(r, n)
    if t0 in ("long", "int"):
        x0 = [float(round(v)) for v in x0]
    if t0 == "float":
        x0 = [f32(v) for v in x0]
    kw = ["%s=%s" % (k, e) for k, e, v in o.opts]
    for k, b in (("lower", o.lo), ("upper", o.up)):
        if b[0] == 1:
            kw.append("%s=%s" % (k, b[1]))
        elif b[0] == 2:
            kw.append("%s=%s" % (k, o.bexpr[k]))
    if o.single:
        kw.append("single=1")
    if o.alg == 0:
        kw.append("nlcg=1")
    if o.alg == 2:
        kw.append("blmvm=1n")
    maxiter = maxeval = None
    if r.random() < 0.4:
        maxiter = r.choice((0, 1, 2, 5, 20))
        kw.append("maxiter=%d" % maxiter)
    if r.random() < 0.4 or maxiter is None:
        maxeval = r.choice((1, 2, 3, 7, 15, 50))
        kw.append("maxeval=%d" % maxeval)
    verb = None
    vf = "v%d.txt" % s.sid
    if r.random() < 0.3:
        verb = r.choice((1, 1, 2, 5))
        kw.append("verb=%d" % verb)
    kw.append("output=vpnull" if not verb else "output=\"%s\"" % vf)
    r.shuffle(kw)
    style = "ref" if not dims or r.random() < 0.5 else "fill"
    fn = "vpo%d" % s.sid
    if style == "ref":
        s.top("func %s(x, &gx) { gx = vp_g(%d, %d, x); return vp_f(%d, %d, x); }" % (fn, kind, seed, kind, seed))
    else:
        s.top("func %s(x, gx) { gx(*) = vp_g(%d, %d, x)(*); return vp_f(%d, %d, x); }" % (fn, kind, seed, kind, seed))
    outs = r.choice((True, True, False))
    pb = ["b_" + k for k, e in sorted(o.bexpr.items()) if e == "b_" + k]
    s.top("func vpm%d(%s) {\n  local fx, gx;\n  if (catch(-1)) { vp_log, %s, \"err\", catch_message; return; }\n  junk = vp_evals();\n  xc = x0;\n  x = opk_minimize(%s, x0%s, %s);\n  vp_log, %s, allof(x0 == xc) && structof(x0) == structof(xc), vp_evals(), x%s;\n}" %
          (s.sid, ", ".join(["x0"] + pb), s.tag("min"), fn, ", fx, gx" if outs else "", ", ".join(kw), s.tag("min"), ", fx, gx" if outs else ""))
    s.Y("vpm%d, %s;" % (s.sid, ", ".join([yarr(t0, dims, [int(v) for v in x0] if t0 in ("long", "int") else x0)] + pb)))
    if s.mode != "ref":
        return
    s.see("opk_minimize")
    X = Arr(o.single, dims, x0)
    h = o.ref
    task = L.vs_start(h, X.a)
    best = None
    ne = 0
    f = None
    G = Arr(o.single, dims, [0.0]*n)
    rows = []

    def row(last):
        it = L.vs_iterations(h)
        if verb and (last or it % verb == 0):
            rows.append((it, L.vs_evaluations(h), L.vs_restarts(h), f, L.vs_gnorm(h), L.vs_step(h)))
    head = False
    while True:
        if task == TASK["COMPUTE_FG"]:
            if maxeval is not None and L.vs_evaluations(h) >= maxeval:
                if best is not None:
                    X, f, G = best
                s.see("maxeval")
                row(True)
                break
            gd = (C.c_double*n)()
            f = L.vp_eval(kind, seed, n, X.d(), gd)
            G = Arr(o.single, dims, list(gd))
            ne += 1
            if best is None or f < best[1]:
                best = (Arr(o.single, dims, list(X.a)), f, G)
        elif task == TASK["NEW_X"]:
            if maxiter is not None and L.vs_iterations(h) >= maxiter:
                s.see("maxiter")
                row(True)
                break
            row(False)
        elif task == TASK["ERROR"]:
            why = fq(L.vs_reason(L.vs_status(h)))
            s.see("errors")
            s.E("min", fq("err"), ("error message telling \"%s\"" % why, lambda t: why[2:] in t))
            break
        else:
            s.see("converged" if task == TASK["FINAL_X"] else "warnings")
            row(True)
            break
        task = L.vs_iterate(h, X.a, f, G.a)
    if task == TASK["ERROR"]:
        o.free()
        return
    v = [fi(1), fi(ne), X.fmt()]
    if outs:
        # The gradient has the type given by the function.
        v += [fd(f) if f is not None else "v", G.fmt()]
    s.E("min", *v)
    o.free()
    if verb:
        s.see("verbose")
        s.verbose = (vf, rows)


def check_verbose(s, d):
    vf, rows = s.verbose
    got = []
    try:
        text = open(os.path.join(d, vf)).read()
    except OSError:
        text = ""
    for ln in text.splitlines():
        if ln.startswith("#") or not ln.strip() or "WARNING" in ln:
            continue
        w = ln.split()
        if len(w) >= 7:
            got.append((int(w[0]), int(w[2]), int(w[3]), float(w[4]), float(w[5]), float(w[6])))
    if len(got) != len(rows):
        return "%d lines of progress are printed, %d expected" % (len(got), len(rows))
    for a, b in zip(got, rows):
        if a[:3] != b[:3] or any(abs(p - q) > 1e-2*abs(q) + 1e-300 for p, q in zip(a[3:], b[3:])):
            return "progress is reported as %s while it is %s" % (a, b)
    return None


# ---------------------------------------------------------------- derivative-free solvers
def pow_setup(s):
    r = s.r
    n = r.randint(2, 5)
    m = 0
    kind, seed = r.choice((0, 0, 2, 3, 4, 1)), r.randint(1, 10**6)
    sol = r.choice(("newuoa", "cobyla"))
    if sol == "cobyla":
        m = r.choice((0, 0, 1, 2, 3))
        n = r.randint(1, 4)
    npt = r.choice((2*n + 1, n + 2, (n + 1)*(n + 2)//2))
    rb = r.choice((0.5, 1.0, 0.25))
    re_ = rb*r.choice((1e-1, 1e-2, 1e-3))
    maxfun = r.choice((5, 30, 200, 500))
    if sol == "newuoa":
        maxfun = max(maxfun, npt + 1)
    return r, n, m, kind, seed, sol, npt, rb, re_, maxfun


def s_pow(s):
    """Reverse communication with the derivative-free solvers."""
    r, n, m, kind, seed, sol, npt, rb, re_, maxfun = pow_setup(s)
    L = s.lib
    t0 = r.choice(("double", "double", "double", "float", "long"))
    x0 = vals(r, n)
    if t0 == "long":
        x0 = [float(round(v)) for v in x0]
    if t0 == "float":
        x0 = [f32(v) for v in x0]
    dims = (n,) if r.random() < 0.8 else (n, 1) if r.random() < 0.5 else (1, n)
    if n == 1 and r.random() < 0.3:
        dims = ()
    s.Y("x = %s;" % yarr(t0, dims, [int(v) for v in x0] if t0 == "long" else x0))
    nm = "npt" if sol == "newuoa" else "m"
    s.Y("ctx = %s_create(%d, %d, %s, %s, 0, %d);" % (sol, n, npt if sol == "newuoa" else m, lit(rb), lit(re_), maxfun))
    h = None
    if s.mode == "ref":
        h = L.newuoa_create(n, npt, rb, re_, 0, maxfun) if sol == "newuoa" else L.cobyla_create(n, m, rb, re_, 0, maxfun)
        s.see(sol)
    S = {k: getattr(L, "%s_%s" % (sol, k)) for k in ("restart", "get_status", "get_nevals", "get_rho", "reason", "delete")} if L else None

    def q(tag, loop=False):
        s.Y("vp_log, %s, ctx.status, ctx.nevals, ctx.rho, ctx.n, ctx.%s, ctx.reason;" % (s.tag(tag), nm))
        if s.mode == "ref" and not loop:
            e(tag)

    def e(tag):
        st = S["get_status"](h)
        s.E(tag, fi(st), fi(S["get_nevals"](h)), fd(S["get_rho"](h)), fi(n), fi(npt if sol == "newuoa" else m), fq(S["reason"](st)))
    q("new")
    X = (C.c_double*n)(*x0)
    call = "newuoa_iterate(ctx, f, x)" if sol == "newuoa" else "cobyla_iterate(ctx, f, x, c)" if m else r.choice(("cobyla_iterate(ctx, f, x)", "cobyla_iterate(ctx, f, x, [])"))
    for run in range(r.choice((1, 1, 2))):
        if run:
            s.Y("status = %s_restart(ctx); vp_log, %s, status;" % (sol, s.tag("restart")))
            if s.mode == "ref":
                s.E("restart", fi(S["restart"](h)))
                s.see("restarted")
            q("again")
        nst = r.choice((3, 20, 1000))
        for chunk in range(2):
            s.Y("for (k = 1; k <= %d && ctx.status == %s_ITERATE; ++k) {" % (nst, sol.upper()),
                "  f = vp_f(%d, %d, double(x));%s" % (kind, seed, " c = vp_c(%d, %d, double(x));" % (seed, m) if m else ""),
                "  status = %s;" % call,
                "  vp_log, %s, status, x;" % s.tag("it"))
            q("st", True)
            s.Y("}")
            if s.mode == "ref":
                k = 0
                while k < nst and S["get_status"](h) == 1:
                    f = L.vp_eval(kind, seed, n, X, None)
                    if sol == "newuoa":
                        st = L.newuoa_iterate(h, f, X)
                    else:
                        c = (C.c_double*max(m, 1))()
                        L.vp_cons(seed, m, n, X, c)
                        st = L.cobyla_iterate(h, f, X, c if m else None)
                    s.see("pow-evaluations")
                    s.E("it", fi(st), fd(*X, dims=dims))
                    e("st")
                    k += 1
            if r.random() < 0.3:
                bads = ["%s_iterate(o, 1.0)" % sol, "%s_iterate(o, \"a\", x)" % sol, "%s_iterate(o, [1.0, 2.0], x)" % sol, "%s_iterate(o, 1.0, x*1)" % sol,
                        "%s_iterate(o, 1.0, y)" % sol, "%s_iterate(o, 1.0, z)" % sol, "%s_iterate(x, 1.0, x)" % sol, "%s_iterate(o, 1.0, w)" % sol, "o.foo", "o(1)",
                        "%s_iterate(o, 1.0, x, x, x)" % sol, "opk_get_task(o)", "opk_start(o, x)", ("cobyla" if sol == "newuoa" else "newuoa") + "_restart(o)"]
                if sol == "cobyla":
                    bads += ["cobyla_iterate(o, 1.0, x, array(1.0, %d))" % (m + 1), "cobyla_iterate(o, 1.0, x, \"a\")"] + (["cobyla_iterate(o, 1.0, x)"] if m else ["cobyla_iterate(o, 1.0, x, 1.0)"])
                s.Y("y = array(1.0, %d); z = \"a\"; w = 1i*y;" % (n + 1))
                s.bad("o, x, y, z, w", "ctx, x, y, z, w", r.choice(bads))
                q("after")
                s.Y("vp_log, %s, double(x);" % s.tag("afterx"))
                if s.mode == "ref":
                    s.E("afterx", fd(*X, dims=dims))
    if h:
        S["delete"](h)


def s_powmin(s):
    """Drivers of the derivative-free solvers, with an exact (power of two) scaling."""
    r, n, m, kind, seed, sol, npt, rb, re_, maxfun = pow_setup(s)
    L = s.lib
    mx = r.random() < 0.4
    x0 = vals(r, n)
    t0 = r.choice(("double", "double", "float", "long"))
    if t0 == "long":
        x0 = [float(round(v)) for v in x0]
    if t0 == "float":
        x0 = [f32(v) for v in x0]
    dims = (n,) if r.random() < 0.7 else (n, 1)
    scl = None
    args = ["vpf%d" % s.sid] + ([] if sol == "newuoa" else ["vpc%d" % s.sid if m else "[]"])
    args += ["x0", lit(rb), lit(re_)]
    if r.random() < 0.5:
        scl = [2.0**r.randint(-2, 3) for _ in range(n)]
        args.append(yarr(r.choice(("double", "float")), dims, scl))
    kw = []
    if sol == "newuoa" and r.random() < 0.5:
        kw.append("npt=%d" % npt)
    else:
        npt = 2*n + 1
    if r.random() < 0.6:
        kw.append("maxfun=%d" % maxfun)
    elif sol == "newuoa":
        maxfun = 30*n
    else:
        maxfun = 50*n
    al = r.random() < 0.5
    if al:
        kw.append("all=1")
    err = r.choice((None, 0, -1, -1, -1))
    if err is not None:
        kw.append("err=%d" % err)
    sg = "-" if mx else ""
    s.top("func vpf%d(x) { return %svp_f(%d, %d, x); }" % (s.sid, sg, kind, seed))
    if m:
        s.top("func vpc%d(x) { return vp_c(%d, %d, x); }" % (s.sid, seed, m))
    S = sg
    fn = "%s_%s" % (sol, "maximize" if mx else "minimize")
    w = "max" if mx else "min"
    mem = "r.f%s, %sr.x%s, r.nevals, r.status, r.rho" % (w, "r.c%s, " % w if sol == "cobyla" else "", w)
    s.top("func vpm%d(x0) {\n  if (catch(-1)) { vp_log, %s, \"err\", catch_message; return; }\n  junk = vp_evals();\n  xc = x0;\n  r = %s(%s);\n  vp_log, %s, allof(x0 == xc), vp_evals(), %s;\n}" %
          (s.sid, s.tag("pmin"), fn, ", ".join(args + kw), s.tag("pmin"), mem if al else "r"))
    s.Y("vpm%d, %s;" % (s.sid, yarr(t0, dims, [int(v) for v in x0] if t0 == "long" else x0)))
    if s.mode != "ref":
        return
    s.see(fn)
    sc = scl or [1.0]*n
    h = L.newuoa_create(n, npt, rb, re_, 0, maxfun) if sol == "newuoa" else L.cobyla_create(n, m, rb, re_, 0, maxfun)
    u = (C.c_double*n)(*[a/b for a, b in zip(x0, sc)])
    x = list(x0)
    best = None
    ne = 0
    while True:
        X = (C.c_double*n)(*x)
        f = L.vp_eval(kind, seed, n, X, None)
        ne += 1
        c = (C.c_double*max(m, 1))()
        if m:
            L.vp_cons(seed, m, n, X, c)
        if best is None or f < best[0]:
            best = (f, list(c)[:m], list(x))
        st = L.newuoa_iterate(h, f, u) if sol == "newuoa" else L.cobyla_iterate(h, f, u, c if m else None)
        x = [a*b for a, b in zip(sc, u)]
        if st != 1:
            break
    get = lambda k: getattr(L, "%s_%s" % (sol, k))
    reason = get("reason")(st).decode()
    if st != 0 and not err:
        s.see("failures")
        s.E("pmin", fq("err"), ("error message telling \"%s\"" % reason, lambda t: fq(reason)[2:] in t))
    else:
        v = [fi(1), fi(ne)]
        if al:
            v += [fd(-best[0] if mx else best[0])]
            if sol == "cobyla":
                v += [fd(*best[1], dims=(m,)) if m else "v"]
            rho = get("get_rho")(h)
            v += [fd(*best[2], dims=dims), fi(get("get_nevals")(h)), fi(st), fd(*[rho*k for k in sc], dims=dims)]
        else:
            v += [fd(*x, dims=dims)]
        s.E("pmin", *v)
    get("delete")(h)


# ---------------------------------------------------------------- trust region
BAD_GQT = ("opk_gqtpar(A, b)", "opk_gqtpar(A)", "opk_gqtpar()", "opk_gqtpar(A, b, 0.0)", "opk_gqtpar(A, b, -1.0, lam)", "opk_gqtpar(A, b, 1.0, -0.5)",
           "opk_gqtpar(A, b, 1.0, lam, 3.0)", "opk_gqtpar(A, b, 1.0, lam, f, 2)", "opk_gqtpar(A, b, 1.0, lam, f, it, 3)", "opk_gqtpar(A, b, 1.0, lam, f, it, st, n)",
           "opk_gqtpar(A, b, 1.0, atol=-1e-3)", "opk_gqtpar(A, b, 1.0, lam, rtol=-1.0)", "opk_gqtpar(A, b, 1.0, maxiter=0)", "opk_gqtpar(A, b, 1.0, lam, maxiter=-3)",
           "opk_gqtpar(A, b, 1.0, niter=3)", "opk_gqtpar(A, array(1.0, n, 2), 1.0)", "opk_gqtpar(A, array(1.0, n + 1), 1.0)", "opk_gqtpar(array(1.0, n + 1, n + 1), b, 1.0)",
           "opk_gqtpar(array(1.0, n, n + 1), b, 1.0)", "opk_gqtpar(array(1.0, n + 1, n), b, 1.0)", "opk_gqtpar(array(1.0f, n, n, 2), b, 1.0)", "opk_gqtpar(array(1.0, n*(n + 1)/2 + 1), b, 1.0)",
           "opk_gqtpar(array(1.0, n*(n + 1)/2 + 2), b, 1.0)", "opk_gqtpar(array(1n, n*(n + 1)/2 + 3), b, 1.0, lam)", "opk_gqtpar(\"abc\", b, 1.0)", "opk_gqtpar(A, \"abc\", 1.0)", "opk_gqtpar(A + 1i, b, 1.0)", "opk_gqtpar(A, b + 1i, 1.0, lam)",
           "opk_gqtpar([], b, 1.0)", "opk_gqtpar(A, [], 1.0)", "opk_gqtpar(A, b, [])", "opk_gqtpar(A, b, [1.0, 2.0])", "opk_gqtpar(A, b, 1.0, [1.0, 2.0])", "opk_gqtpar(A, b, \"1\")", "opk_gqtpar(A, b, 1.0, rtol=\"x\")", "opk_gqtpar(A, b, 1.0, maxiter=2.5)",
           "opk_gqtpar(&A, b, 1.0)", "opk_gqtpar(A, opk_gqtpar, 1.0)")


def s_gqt(s):
    r, L = s.r, s.lib
    n = r.choice((1, 2, 2, 3, 3, 4, 6, 8))
    ta = r.choice(("double", "double", "float", "long", "int"))
    tb = r.choice(("double", "double", "float", "long"))
    integer = {"long": 1, "int": 1}
    single = not ("double" in (ta, tb))

    def num(t):
        v = r.choice((r.uniform(-3, 3), float(r.randint(-3, 3))))
        return float(round(v)) if t in integer else f32(v) if t == "float" else v
    mode = r.random()
    if mode < 0.6:  # positive or not: diagonal shift
        sh = r.choice((0.0, 4.0, 12.0))
    else:
        sh = -4.0
    U = [[num(ta) + (sh if i == j else 0.0) for j in range(n)] for i in range(n)]  # upper triangle used: U[i][j], i <= j
    if ta == "float":
        U = [[f32(v) for v in q] for q in U]
    form = r.choice(("full", "full", "packed", "junk"))
    if n == 1 and form == "packed":
        form = "full"
    cols = [[U[i][j] if i <= j else (U[j][i] if form != "junk" else num(ta) + 50) for i in range(n)] for j in range(n)]  # column major
    flat = [v for c in cols for v in c]
    if form == "packed":
        flat = [U[i][j] for j in range(n) for i in range(j + 1)]
        ea, dims = yarr(ta, (len(flat),), [int(v) for v in flat] if ta in integer else flat), (len(flat),)
    elif n == 1 and r.random() < 0.4:
        ea, dims = yarr(ta, (), [int(v) for v in flat] if ta in integer else flat), ()
    else:
        ea, dims = yarr(ta, (n, n), [int(v) for v in flat] if ta in integer else flat), (n, n)
    b = [num(tb) for _ in range(n)]
    bd = (n,) if n > 1 or r.random() < 0.6 else ()
    eb = yarr(tb, bd, [int(v) for v in b] if tb in integer else b)
    how = r.choice(("variable", "expression", "pointee", "member", "parenthesis", "subscript", "temporary"))
    if not dims and how == "subscript":
        how = "variable"
    delta = r.choice((0.1, 0.5, 1.0, 2, 10.0, 1e3))
    s.Y("A = %s; b = %s;" % (ea, eb))
    arg = {"variable": "A", "expression": "(A + %s(0))" % ta, "pointee": "*pA", "member": "oA.A", "parenthesis": "(A)", "subscript": "A(*)" if form == "packed" else "A(,)", "temporary": ea}[how]
    if how == "pointee":
        s.Y("pA = &A;")
    if how == "member":
        s.Y("oA = save(A);")
    kw = []
    rtol, atol, maxiter = 5e-2, 1e-8, 7
    if r.random() < 0.5:
        rtol = r.choice((0.1, 1e-2, 1e-4))
        kw.append("rtol=" + lit(rtol))
    if r.random() < 0.5:
        atol = r.choice((0.0, 1e-3, 1e-6))
        kw.append("atol=" + lit(atol))
    if r.random() < 0.5:
        maxiter = r.choice((1, 3, 20, 50))
        kw.append("maxiter=%d" % maxiter)
    if r.random() < 0.2:
        kw.append(r.choice(("rtol=[]", "atol=[]", "maxiter=[]")))
        k = kw[-1].split("=")[0] + "="
        if len([q for q in kw if q.startswith(k)]) > 1:
            kw.pop()
    nout = r.randint(0, 4)
    lam = 0.0
    if nout:
        if r.random() < 0.5:
            lam = r.choice((0.0, 0.5, 3, 100.0))
            s.Y("lam = %s;" % lit(lam))
        else:
            s.Y("lam = [];")
    s.Y("f = it = st = [];")
    args = [arg, "b", lit(delta)] + ["lam", "f", "it", "st"][:nout]
    for k in kw:
        args.insert(r.randint(0, len(args)), k)
    if r.random() < 0.3:  # an incorrect call changes nothing
        s.Y("A0 = A; b0 = b; lam0 = lam;" if nout else "A0 = A; b0 = b; lam = lam0 = [];")
        s.bad("A, b, &lam, n", "A, b, lam, %d" % n, r.choice(BAD_GQT))
        s.Y("vp_log, %s, structof(A) == structof(A0) && allof(dimsof(A) == dimsof(A0)) && allof(A == A0), allof(b == b0), (is_void(lam0) ? is_void(lam) : lam == lam0);" % s.tag("after"))
        if s.mode == "ref":
            s.see("gqt-incorrect")
            s.E("after", fi(1), fi(1), fi(1))
    s.Y("A0 = A; b0 = b;", "x = opk_gqtpar(%s);" % ", ".join(args), "vp_log, %s, x, structof(A) == structof(A0) && allof(A == A0), allof(b == b0)%s;" % (s.tag("gqt"), "".join(", " + k for k in ("lam", "f", "it", "st")[:nout])))
    if how == "pointee":
        s.Y("vp_log, %s, allof(*pA == A0), allof(dimsof(*pA) == dimsof(A0));" % s.tag("kept"))
    if how == "member":
        s.Y("vp_log, %s, allof(oA.A == A0), allof(dimsof(oA.A) == dimsof(A0));" % s.tag("kept"))
    if s.mode != "ref":
        return
    s.see("gqtpar")
    s.see("gqt-" + how)
    s.see("gqt-" + form)
    T = C.c_float if single else C.c_double
    N = n
    a = (T*(N*N))(*[U[min(i, j)][max(i, j)] for j in range(n) for i in range(n)])
    bb = (T*N)(*b)
    x, z, w1, w2 = (T*N)(), (T*N)(), (T*N)(), (T*N)()
    par, f, it = T(lam), T(0), C.c_long(0)
    fn = L.opk_sgqt if single else L.opk_dgqt
    st = fn(n, a, n, bb, delta, rtol, atol, maxiter, C.byref(par), C.byref(f), x, C.byref(it), z, w1, w2)
    s.see("gqt-status-%d" % st)
    v = [(ff if single else fd)(*x, dims=(n,)), fi(1), fi(1)]
    s.E("gqt", *(v + [fd(par.value), fd(f.value), fi(it.value), fi(st)][:nout]))
    if how in ("pointee", "member"):
        s.E("kept", fi(1), fi(1))


# ---------------------------------------------------------------- texts and constants
NAMES = """OPK_TASK_ERROR OPK_TASK_START OPK_TASK_COMPUTE_FG OPK_TASK_NEW_X OPK_TASK_FINAL_X OPK_TASK_WARNING OPK_SUCCESS OPK_INVALID_ARGUMENT OPK_INSUFFICIENT_MEMORY
OPK_ILLEGAL_ADDRESS OPK_NLCG_FLETCHER_REEVES OPK_NLCG_HESTENES_STIEFEL OPK_NLCG_POLAK_RIBIERE_POLYAK OPK_NLCG_FLETCHER OPK_NLCG_LIU_STOREY OPK_NLCG_DAI_YUAN
OPK_NLCG_PERRY_SHANNO OPK_NLCG_HAGER_ZHANG OPK_NLCG_POWELL OPK_NLCG_SHANNO_PHUA OPK_NLCG_DEFAULT OPK_nothing nothing""".split()
GLOBALS = """OPK_TASK_ERROR OPK_TASK_COMPUTE_FG OPK_TASK_NEW_X OPK_TASK_FINAL_X OPK_TASK_WARNING OPK_NLCG_FLETCHER_REEVES OPK_NLCG_HESTENES_STIEFEL
OPK_NLCG_POLAK_RIBIERE_POLYAK OPK_NLCG_FLETCHER OPK_NLCG_LIU_STOREY OPK_NLCG_DAI_YUAN OPK_NLCG_PERRY_SHANNO OPK_NLCG_HAGER_ZHANG OPK_NLCG_POWELL OPK_NLCG_SHANNO_PHUA OPK_NLCG_DEFAULT""".split()
POWELL = dict(NEWUOA_ITERATE=1, NEWUOA_SUCCESS=0, NEWUOA_BAD_NVARS=-1, NEWUOA_BAD_NPT=-2, NEWUOA_BAD_RHO_RANGE=-3, NEWUOA_BAD_SCALING=-4, NEWUOA_ROUNDING_ERRORS=-5,
              NEWUOA_TOO_MANY_EVALUATIONS=-6, NEWUOA_STEP_FAILED=-7, NEWUOA_BAD_ADDRESS=-8, NEWUOA_CORRUPTED=-9, COBYLA_ITERATE=1, COBYLA_SUCCESS=0, COBYLA_BAD_NVARS=-1,
              COBYLA_BAD_NCONS=-2, COBYLA_BAD_RHO_RANGE=-3, COBYLA_BAD_SCALING=-4, COBYLA_ROUNDING_ERRORS=-5, COBYLA_TOO_MANY_EVALUATIONS=-6, COBYLA_BAD_ADDRESS=-7, COBYLA_CORRUPTED=-8)


def s_text(s):
    r, L = s.r, s.lib
    if r.random() < 0.3:
        s.Y("opk_init; cobyla_init; newuoa_init;")
    for nm in r.sample(NAMES, 6):
        s.Y("vp_log, %s, opk_get_constant(\"%s\");" % (s.tag("const." + nm), nm))
        if s.mode == "ref":
            ok = C.c_int(0)
            v = L.vs_constant(nm.encode(), C.byref(ok))
            s.E("const." + nm, fi(v) if ok.value else "v")
            s.see("constants")
    for nm in r.sample(GLOBALS, 5):
        s.Y("vp_log, %s, %s;" % (s.tag("glob." + nm), nm))
        if s.mode == "ref":
            ok = C.c_int(0)
            v = L.vs_constant(nm.encode(), C.byref(ok))
            s.E("glob." + nm, fi(v))
    for nm in r.sample(sorted(POWELL), 6):
        s.Y("vp_log, %s, %s;" % (s.tag("glob." + nm), nm))
        if s.mode == "ref":
            s.E("glob." + nm, fi(POWELL[nm]))
    for _ in range(4):
        c = r.randint(-3, 32) + r.choice((0, 0, 0, 256, -256, 65536, 1 << 24))
        s.Y("vp_log, %s, opk_get_reason(%d);" % (s.tag("reason"), c))
        if s.mode == "ref":
            s.E("reason", fq(L.vs_reason(c)))
            s.see("texts")
    for _ in range(3):
        c = r.randint(-12, 4)
        for k in ("newuoa", "cobyla"):
            s.Y("vp_log, %s, %s_reason(%d);" % (s.tag(k + "reason"), k, c))
            if s.mode == "ref":
                s.E(k + "reason", fq(getattr(L, k + "_reason")(c)))
    for c in (1, 2, 3, 4):
        s.Y("vp_log, %s, opk_gqtpar_info(%d);" % (s.tag("info"), c))
        if s.mode == "ref":
            s.E("info", ("a text", lambda t: len(t) > 10))
    for _ in range(r.randint(2, 6)):
        s.bad("", "", r.choice(BAD_NEW))


# ---------------------------------------------------------------- life of the objects
def s_life(s):
    """Any number of references, containers and releases: the library's blocks
    are released with the last reference, not before."""
    r = s.r
    s.Y("base = vp_live();")
    made = 0
    where = {}  # slot -> object
    alive = lambda: sorted(set(where.values()))
    slots = ["a", "b", "c", "d", "e", "l.x", "l.y", "l.z"]
    s.Y("l = save(x=[], y=[], z=[]);", "a = b = c = d = e = [];")
    for _ in range(r.randint(6, 25)):
        k = r.random()
        sl = r.choice(slots)

        def put(slot, expr):
            if slot.startswith("l."):
                s.Y("save, l, %s=%s;" % (slot[2:], expr))
            else:
                s.Y("%s = %s;" % (slot, expr))
        if k < 0.4 or not where:
            made += 1
            n = r.randint(1, 6)
            e = r.choice(("opk_nlcg(%d)" % n, "opk_vmlmb(%d)" % n, "opk_vmlmb(%d, lower=0, single=1)" % n, "opk_vmlmb(%d, lower=array(0.0, %d), upper=array(1, %d))" % (n, n, n), "opk_blmvm(%d, upper=indgen(%d), mem=2)" % (n, n),
                          "newuoa_create(%d, %d, 1.0, 0.1, 0, 50)" % (n + 1, 2*n + 3), "cobyla_create(%d, %d, 1.0, 0.1, 0, 50)" % (n, n % 3)))
            s.Y("v0 = vp_live(); tmp = %s; n%d = vp_live() - v0;" % (e, made))
            put(sl, "tmp")
            s.Y("tmp = [];", "vp_log, %s, (n%d > 0);" % (s.tag("blocks"), made))
            if s.mode == "ref":
                s.E("blocks", fi(1))
                s.see("objects")
            where[sl] = made
        elif k < 0.6:
            src = r.choice(sorted(where))
            put(sl, src)
            where[sl] = where[src]
            s.see("aliases")
        elif k < 0.7:
            src = r.choice(sorted(where))  # bounds outlive the object
            if not src.startswith("l."):
                s.Y("if (typeof(%s) == \"OPKY optimizer\") { lo = %s.lower; } else { lo = []; }" % (src, src))
        elif k < 0.8:
            src = r.choice(sorted(where))
            s.bad("o", src, r.choice(("opk_start(o, 1:2)", "opk_iterate(o, o, o, o)", "error, \"mine\"", "cobyla_iterate(o, 1.0, o)", "newuoa_iterate(o, 1.0, o)")))
        else:
            put(sl, "[]")
            where.pop(sl, None)
            s.see("releases")
        s.Y("vp_log, %s, vp_live() - base%s;" % (s.tag("live"), "".join(" - n%d" % i for i in alive())))
        if s.mode == "ref":
            s.E("live", fi(0))
    s.Y("a = b = c = d = e = l = lo = [];", "vp_log, %s, vp_live() - base;" % s.tag("released"))
    if s.mode == "ref":
        s.E("released", fi(0))


KINDS = ((s_opt, 34), (s_min, 20), (s_pow, 14), (s_powmin, 12), (s_gqt, 14), (s_text, 5), (s_life, 8))


def make(seed, sid, mode, lib):
    r = random.Random("%d/%d" % (seed, sid))
    s = Scen(r, sid, mode, lib)
    fn = r.choices([k for k, w in KINDS], [w for k, w in KINDS])[0]
    s.kind = fn.__name__[2:]
    s.verbose = None
    fn(s)
    if r.random() < 0.15:
        s.bad("", "", r.choice(BAD_NEW))
    s.Y("vp_log, %s;" % s.tag("end"))
    s.E("end")
    return s


HEAD = """set_path, "%(dir)s:" + get_path();
plug_dir, "%(dir)s";
include, "%(dir)s/opky.i", 1;
include, "%(dir)s/vp.i", 1;
func VPA(t, dims, v) { x = array(t, dims); x(*) = t(v); return x; }
vp_open, "%(out)s";
vpnull = open("%(out)s.null", "w");
"""


def gen(seed, start, count, plug, out):
    txt = [HEAD % dict(dir=plug, out=os.path.join(out, "log"))]
    for sid in range(start, start + count):
        s = make(seed, sid, "gen", None)
        txt += s.pre
        txt.append("func vps%d(void) {\n  local x, y, z, w, f, g, fx, gx, lam, it, st, opt, ctx, A, b;\n  %s\n}\nvps%d;\nvp_log, \"%d.live\", vp_live();" % (sid, "\n  ".join(s.y), sid, sid))
    txt.append('vp_log, "complete";')
    with open(os.path.join(out, "s.i"), "w") as f:
        f.write("\n".join(txt) + "\n")


def ref(seed, start, count, out, libpath):
    lib = Lib(libpath)
    try:
        lines = open(os.path.join(out, "log")).read().split("\n")
    except OSError:
        lines = []
    if lines and lines[-1] == "":
        lines.pop()
    pos = 0
    obs = {}
    for sid in range(start, start + count):
        s = make(seed, sid, "ref", lib)
        exp = s.exp + [("%d.live" % sid, [fi(0)])]
        bad = None
        for tag, vals_ in exp:
            if pos >= len(lines):
                bad = ("stopped", "the interpreter stopped before \"%s\"" % tag)
                break
            w = lines[pos].split(" ")
            pos += 1
            if w[0] != tag:
                bad = ("order", "the interpreter reports \"%s\" instead of \"%s\"" % (lines[pos - 1][:200], tag))
                break
            for k, v in enumerate(vals_):
                got = w[1 + k] if 1 + k < len(w) else "(nothing)"
                if isinstance(v, tuple):
                    if not v[1](got):
                        bad = ("value", "%s: %s is not %s" % (tag, got[:300], v[0]))
                        break
                elif got != v:
                    bad = ("value", "%s: value %d is %s, expected %s" % (tag, k + 1, got[:300], v[:300]))
                    break
            if bad is None and len(w) != 1 + len(vals_):
                bad = ("value", "%s: %d values instead of %d" % (tag, len(w) - 1, len(vals_)))
            if bad:
                break
            obs["events"] = obs.get("events", 0) + 1
        if not bad and s.verbose:
            m = check_verbose(s, out)
            if m:
                bad = ("verbose", m)
        for o in s.obs:
            obs[o] = obs.get(o, 0) + 1
        if bad:
            print("VIOL C32 %d %s-%s %s" % (sid, s.kind, bad[0], bad[1]))
            if bad[0] == "stopped":
                print("STOPPED %d" % sid)
                break
            # resume at the end of the scenario
            while pos < len(lines) and not lines[pos].startswith("%d.live" % sid):
                pos += 1
            if lines[pos - 1].startswith("%d.live" % sid):
                pass
            else:
                pos += 1
        else:
            import hashlib
            print("H %s" % hashlib.md5(("%s %s" % (s.kind, s.y)).encode()).hexdigest()[:16])
        if sid == start:
            print("SAMPLE case %d: %s: %s" % (sid, s.kind, " ".join(s.y)[:300]))
        print("DONE 1")
    for k, v in obs.items():
        print("OBS %s %d" % (k, v))


if __name__ == "__main__":
    a = sys.argv
    if a[1] == "gen":
        gen(int(a[2]), int(a[3]), int(a[4]), a[5], a[6])
    else:
        ref(int(a[2]), int(a[3]), int(a[4]), a[5], a[6])
