"""N01-N05: numerical tools (tools.h, tools.cpp, AdaptiveQuad.h) against the real-number specifications in spec/."""
import math, os
from concurrent.futures import ThreadPoolExecutor
import vp

LIBS = ["-lhdf5_hl", "-lhdf5", "-lgsl", "-lgslcblas", "-lm"]


def hx(x): return "nan" if x != x else float(x).hex()
def hs(v): return " ".join(hx(x) for x in v)


def driver(chk, sanitize=True):
    return chk.compile("num", [os.path.join(vp.HARN, "num_driver.cpp"), os.path.join(vp.REPO, "src/tools.cpp")], libs=LIBS,
                       flags=["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"] if sanitize else [], opt="-O1")


def run(chk, exe, cmds):
    """cmds: (text, event) pairs; merges the driver's answers into the events."""
    rc, out, err = chk.run_driver(exe, input="\n".join(c for c, _ in cmds) + "\n", timeout=150)
    if rc == 3: raise vp.ModelFailure("driver: " + err[-500:])
    got = vp.parse_events(out)
    evs = []
    for i, (c, e) in enumerate(cmds):
        ev = dict(e)
        if i < len(got): ev.update(got[i])
        else: ev["r"] = "crash"
        evs.append(ev)
        if ev.get("r") not in ("ok", "refused"):
            break
    if len(evs) == len(cmds) and "#done" not in out and evs[-1]["r"] == "ok": evs.append(dict(e="end", r="crash"))
    return evs


def check(chk, module, batches, what, exe=None):
    """Run the batches (lists of commands) and validate their events, several at a time."""
    exe = exe or driver(chk)
    def one(ib):
        i, cmds = ib
        evs = run(chk, exe, cmds)
        bad = chk.validate(module, evs, name="t%d" % i, quiet=True, mem="3g")
        return i, evs, bad
    with ThreadPoolExecutor(6) as ex: res = list(ex.map(one, list(enumerate(batches))))
    for i, evs, bad in res:
        chk.cov["traces_validated_against_impl"] += 1
        chk.notes["events"] = chk.notes.get("events", 0) + len(evs)
        if bad is not None:
            ctx = batches[i][:bad + 1]
            raise vp.Violation("%s: recorded answer is not what the specification allows" % what,
                               dict(event=evs[bad], commands=[c for c, _ in ctx][-6:], previous=evs[max(0, bad - 2):bad]))
        chk.sample({k: v for k, v in evs[min(3, len(evs) - 1)].items() if len(str(v)) < 200})


# ------------------------------------------------------------------------------------------------ N01
def pp_text(pp): return "%d %s %s %s" % (len(pp["brk"]), hs(pp["brk"]), hx(pp["sh"]), " ".join("%d %s" % (len(c), hs(c)) for c in pp["c"]))
def pp_eval(pp, x):
    k = 0
    while k < len(pp["brk"]) and x >= pp["brk"][k]: k += 1
    r = 0.0
    for c in reversed(pp["c"][k]): r = r * (x - pp["sh"]) + c
    return r


def quad_cmd(op, a, b, tol, pp, opt=1, ga=False, gb=False, va=None, vb=None, pre=False):
    va = pp_eval(pp, a) if va is None else va
    vb = pp_eval(pp, b) if vb is None else vb
    txt = "%s %s %s %s %d %d %d %s %s %s" % (op, hx(a), hx(b), hx(tol), opt, (1 if ga else 0) + (2 if pre else 0), 1 if gb else 0, hx(va), hx(vb), pp_text(pp))
    return (txt, dict(e=op, a=hx(a), b=hx(b), tol=hx(tol), opt=bool(opt), ga=bool(ga and opt), gb=bool(gb and opt), va=hx(va), vb=hx(vb),
                      brk=[hx(x) for x in pp["brk"]], sh=hx(pp["sh"]), c=[[hx(x) for x in c] for c in pp["c"]],
                      scale=hx(abs(b - a) * max([abs(pp_eval(pp, a + (b - a) * k / 16.0)) for k in range(17)] + [1e-300]))))


def rnd_pp(rng, a, b):
    lo, hi = min(a, b), max(a, b)
    w = hi - lo
    kind = rng.choice(["poly", "poly", "step", "step", "steps", "kink", "mixed", "hat"])
    sh = lo + w * rng.random() if rng.random() < .5 else lo + w / 2
    co = lambda n: [rng.uniform(-1, 1) / (max(w / 2, 1e-3) ** k) * rng.choice([1, 1, 1, 3]) for k in range(n + 1)]
    if kind == "poly": return dict(brk=[], sh=sh, c=[co(rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14, 17]))])
    if kind == "step": return dict(brk=[lo + w * rng.uniform(.01, .99)], sh=0.0, c=[[rng.choice([0.0, 1.0, rng.uniform(-2, 2)])], [rng.uniform(.5, 3)]])
    if kind == "steps":
        n = rng.randint(2, 3); return dict(brk=sorted(lo + w * rng.uniform(.02, .98) for _ in range(n)), sh=0.0, c=[[rng.uniform(-2, 2)] for _ in range(n + 1)])
    if kind == "kink":
        x = lo + w * rng.uniform(.05, .95); s, t = rng.uniform(-2, 2), rng.uniform(-2, 2); return dict(brk=[x], sh=x, c=[[1.0, s / w], [1.0, t / w]])
    if kind == "hat":
        x = lo + w * rng.uniform(.1, .8); y = x + w * rng.uniform(.001, .1); return dict(brk=[x, y], sh=0.0, c=[[0.0], [1.0], [0.0]])
    x = lo + w * rng.uniform(.1, .9)
    return dict(brk=[x], sh=sh, c=[co(rng.randint(0, 6)), co(rng.randint(0, 6))])


def N01(chk):
    chk.model_check("MC_Quad", "MC_Quad_deep.cfg" if chk.thorough else None, workers=8)
    rng = chk.rng
    one = dict(brk=[], sh=0.0, c=[[1.0]])
    step = lambda x, l=1.0, r=2.0: dict(brk=[x], sh=0.0, c=[[l], [r]])
    fixed = []
    for a, b in ((0.0, 1.0), (1.0, 0.0), (-3.0, 2.0), (1000.0, 1001.0), (1001.0, 1000.0), (-5.0, -4.5), (1e-9, 2e-9), (0.0, 1e12), (1e6, 1e6 + 1e-3)):
        for deg in range(0, 18, 1 if chk.thorough else 2):
            w = abs(b - a); sh = min(a, b) + w * .3
            pp = dict(brk=[], sh=sh, c=[[rng.choice([1, -1]) * rng.uniform(.5, 1) / w ** k for k in range(deg + 1)]])
            fixed.append(quad_cmd("quad", a, b, rng.choice([1e-3, 1e-6, 1e-9, 1e-13]), pp, opt=rng.random() < .7))
        for tol in (1e-3, 1e-6, 1e-10, 3e-13, 1e-13, 1e-15):
            w = b - a
            fixed.append(quad_cmd("quad", a, b, tol, step(min(a, b) + abs(w) * .37, 1.0 / abs(w), 2.0 / abs(w)), pre=rng.random() < .3))
    # jumps whose last, no longer divisible part may or may not meet the tolerance
    for i in range(160 if chk.thorough else 48):
        a = rng.choice([1000.0, -1000.0, 300.0]); x = a + rng.uniform(.1, .9)
        fixed.append(quad_cmd("quad", a, a + 1, 10 ** rng.uniform(-13.5, -11.2), step(x), pre=rng.random() < .5))
    # refusals: tolerance too small, degenerate or too narrow interval
    for a, b, tol in ((0, 1, 1e-16), (0, 1, 2.3e-16), (0, 1, 2.0e-16), (0, 1, 0.0), (0, 1, -1e-6), (1, 1, 1e-6), (0, 0, 1e-6), (1, 1 + 2**-50, 1e-6), (1 + 2**-50, 1, 1e-6),
                      (1, 1 + 2**-46, 1e-6), (-1, -1 + 2**-48, 1e-3), (-1 - 2**-30, -1, 1e-3), (1e5, 1e5 + 1e-12, 1e-3), (0, 1e-300, 1e-6)):
        for o in (0, 1): fixed.append(quad_cmd("quad", float(a), float(b), tol, one, opt=o))
    # supplied endpoint values are used, at the end they belong to, whatever the direction
    for a, b in ((0.0, 2.0), (2.0, 0.0), (-1.0, 3.5), (3.5, -1.0)):
        for g in ((True, False), (False, True), (True, True)):
            for pp in (dict(brk=[], sh=0.0, c=[[1.0, 2.0, -1.0]]), dict(brk=[], sh=0.0, c=[[5.0, 1.0]]), step(.7)):
                fixed.append(quad_cmd("quad", a, b, 1e-6, pp, ga=g[0], gb=g[1]))
                fixed.append(quad_cmd("quad", a, b, 1e-3, pp, ga=g[0], gb=g[1], va=7.25, vb=-3.5))
    rnd = []
    for _ in range(4000 if chk.thorough else 400):
        r = rng.random()
        if r < .5: a = rng.uniform(-3, 3); b = a + rng.choice([-1, 1]) * rng.choice([1e-3, 1, 2, 10]) * rng.uniform(.3, 1)
        elif r < .8: a = rng.choice([1000.0, -500.0, 1e5]) ; b = a + rng.choice([-1, 1]) * rng.choice([1.0, .01, 30.0])
        else: a = 10 ** rng.uniform(-6, 6); b = a * rng.uniform(1.2, 100)
        pp = rnd_pp(rng, a, b)
        tol = 10 ** rng.uniform(-13.5, -2)
        rnd.append(quad_cmd("quad", a, b, tol, pp, opt=rng.random() < .85, ga=rng.random() < .2, gb=rng.random() < .2, pre=rng.random() < .2))
    gsl = []
    for _ in range(400 if chk.thorough else 60):
        a = rng.uniform(-3, 3); b = a + rng.choice([-1, 1]) * rng.uniform(.2, 5)
        pp = dict(brk=[], sh=a, c=[[rng.uniform(-1, 1) for _ in range(rng.randint(1, 9))]])
        gsl.append(quad_cmd(rng.choice(["gsl1", "gsl2"]), a, b, 10 ** rng.uniform(-10, -3), pp))
    allc = fixed + gsl + rnd
    n = 10
    check(chk, "TraceQuad", [allc[i::n] for i in range(n)], "quadrature")
    chk.notes["integrations"] = len(allc)
    chk.assumptions += ["integrands are piecewise polynomials; decisions that only rounding settles are not predicted",
                        "real arithmetic of spec/java/Num.java (80 digits)"]


# ------------------------------------------------------------------------------------------------ N02
def spline_cmd(how, x, y):
    return ("spline %d %d %d %s %s" % (how, len(x), len(y), hs(x), hs(y)), dict(e="spline", how=how, x=[hx(v) for v in x], y=[hx(v) for v in y]))


def dyadic_data(rng, n):
    x = [float(rng.randint(-8, 8))]
    step = 2.0 ** rng.randint(-3, 3)
    for _ in range(n - 1): x.append(x[-1] + step * rng.choice([1, 1, 1, 2, 4]))
    k = rng.choice(["line", "flat", "bent", "rand", "runs", "outlier"])
    if k == "line": a, c = rng.randint(-4, 4), rng.randint(-9, 9); y = [a * v + c for v in x]
    elif k == "flat": y = [3.0] * n
    elif k == "bent":
        p = rng.randrange(n); y = [abs(v - x[p]) * 2 + 1 for v in x]
    elif k == "outlier":
        y = [0.0] * n; y[rng.randrange(n)] = 8.0
    elif k == "runs":
        y = [0.0]
        s = 0.0
        for i in range(n - 1):
            if i % 3 == 0: s = float(rng.randint(-3, 3))
            y.append(y[-1] + s * (x[i + 1] - x[i]))
    else: y = [float(rng.randint(-8, 8)) for _ in x]
    return x, y


def random_data(rng, n):
    s = 10 ** rng.uniform(-6, 6)
    x = [rng.uniform(-5, 5) * s]
    for _ in range(n - 1): x.append(x[-1] + s * 10 ** rng.uniform(-1.5, .5))
    k = rng.choice(["rand", "smooth", "scaled"])
    if k == "rand": y = [rng.uniform(-1, 1) for _ in x]
    elif k == "smooth": y = [math.sin(v / s) for v in x]
    else: y = [10 ** rng.uniform(-8, 8) * rng.choice([-1, 1]) for _ in x]
    return x, y


def spline_evals(rng, x, k):
    res = []
    for _ in range(k):
        r = rng.random()
        i = rng.randrange(len(x) - 1)
        if r < .25: v = rng.choice(x)
        elif r < .3: v = x[-1]
        elif r < .8: v = x[i] + (x[i + 1] - x[i]) * rng.choice([.5, .25, .75, rng.random()])
        elif r < .9: v = x[i + 1] + rng.choice([-1, 1]) * 1e-9 * (x[i + 1] - x[i])
        else: v = rng.choice([x[0] - (x[1] - x[0]) * rng.random() * 2, x[-1] + (x[-1] - x[-2]) * rng.random() * 2])
        res.append(("seval " + hx(v), dict(e="seval", x=hx(v))))
    return res


def N02(chk):
    chk.model_check("MC_Akima", "MC_Akima_deep.cfg" if chk.thorough else None, workers=8)
    rng = chk.rng
    batches = []
    for b in range(24 if chk.thorough else 8):
        cmds = []
        for s in range(60 if chk.thorough else 32):
            n = rng.choice([3, 3, 4, 4, 5, 5, 6, 7, 8, 10, 14, 20, 33])
            x, y = dyadic_data(rng, n) if rng.random() < .6 else random_data(rng, n)
            how = rng.choice([0, 1, 2, 2])
            r = rng.random()
            if r < .18 and cmds:  # invalid data: what was there before must survive a refused construction
                bad = rng.choice(["few", "dup", "desc", "size", "swap", "none"])
                if bad == "few": bx, by = x[:2], y[:2]
                elif bad == "none": bx, by = [], []
                elif bad == "dup": i = rng.randrange(n - 1); bx = x[:]; bx[i + 1] = bx[i]; by = y
                elif bad == "swap": i = rng.randrange(n - 1); bx = x[:]; bx[i], bx[i + 1] = bx[i + 1], bx[i]; by = y
                elif bad == "desc": bx, by = x[::-1], y
                else: bx, by = x, y[:-1] + ([] if rng.random() < .5 else [1.0, 2.0])
                h = 1 if bad == "size" else rng.choice([0, 1])
                cmds.append(spline_cmd(h, bx, by))
                if len(by) == len(bx): pass
                cmds += [] if not have else spline_evals(rng, have, 2)
            cmds.append(spline_cmd(how, x, y)); have = x
            cmds += spline_evals(rng, x, 10)
            cmds.append(("sget %d" % rng.choice([0, 1, n, n + 3]), dict(e="sget")))
        batches.append(cmds)
    check(chk, "TraceSpline", batches, "spline")
    chk.assumptions += ["real arithmetic of spec/java/Num.java (80 digits)", "tolerances grow with the conditioning of the Akima blend"]


# ------------------------------------------------------------------------------------------------ N03
def akima_d(x, y):
    """Node derivatives and worst conditioning in floating point (only used to choose well-conditioned data)."""
    n = len(x); m = [(y[i + 1] - y[i]) / (x[i + 1] - x[i]) for i in range(n - 1)]
    S = [3 * m[0] - 2 * m[1], 2 * m[0] - m[1]] + m + [2 * m[-1] - m[-2], 3 * m[-1] - 2 * m[-2]]
    top = max(map(abs, S)) or 1.0
    d, worst = [], 1.0
    for i in range(n):
        L, R = abs(S[i] - S[i + 1]), abs(S[i + 2] - S[i + 3]); df = abs(S[i + 1] - S[i + 2])
        if L + R <= 1e-12 * top:
            if df > 1e-12 * top: worst = 1e30
            d.append(S[i + 2])
        else:
            if df > 1e-12 * top: worst = max(worst, df / (L + R), top / (L + R) * 1e-3)
            a = L / (L + R); d.append((1 - a) * S[i + 1] + a * S[i + 2])
    return d, worst


def well2(xs, ys, f):
    w = 1
    fx = []
    for r in f: d, c = akima_d(xs, r); fx.append(d); w = max(w, c)
    cols = [akima_d(ys, [f[j][i] for j in range(len(ys))]) for i in range(len(xs))]
    w = max([w] + [c for _, c in cols])
    fy = [[cols[i][0][j] for i in range(len(xs))] for j in range(len(ys))]
    for r in fy: w = max(w, akima_d(xs, r)[1])
    return w, fy


def well3(xs, ys, zs, f):
    w = 1
    nx, ny, nz = len(xs), len(ys), len(zs)
    for k in range(nz): w = max(w, well2(xs, ys, f[k])[0])
    fz = [[[0.0] * nx for _ in range(ny)] for _ in range(nz)]
    for j in range(ny):
        for i in range(nx):
            d, c = akima_d(zs, [f[k][j][i] for k in range(nz)]); w = max(w, c)
            for k in range(nz): fz[k][j][i] = d[k]
    for k in range(nz): w = max(w, well2(xs, ys, fz[k])[0])
    return w


def axis(rng, n):
    r = rng.random()
    if r < .3: return [float(v) for v in range(n)]
    x = [rng.uniform(-3, 3)]
    for _ in range(n - 1): x.append(x[-1] + rng.choice([.25, .5, 1, 2]) * (1 if r < .6 else rng.uniform(.5, 2)))
    return x


def pick(rng, xs):
    r = rng.random()
    if r < .3: return rng.choice(xs)
    if r < .4: return xs[-1]
    i = rng.randrange(len(xs) - 1)
    return xs[i] + (xs[i + 1] - xs[i]) * rng.random()


def inside(xs, x): return xs[0] <= x <= xs[-1]


def nest(f, depth): return [nest(r, depth - 1) for r in f] if depth else hx(f)
def flat(f): return [v for r in f for v in (flat(r) if isinstance(r, list) else [r])]


def grid_data(rng, xs, ys, zs=None):
    kind = rng.choice(["rand", "rand", "lin", "sep"])
    def table(g): return [[g(x, y) for x in xs] for y in ys] if zs is None else [[[g(x, y, z) for x in xs] for y in ys] for z in zs]
    if kind == "lin":
        c = [rng.randint(-3, 3) for _ in range(8)]
        for a in (xs, ys) + ((zs,) if zs else ()): a[:] = [round(v * 4) / 4 for v in a]
        return "lin", table(lambda x, y, z=0: c[0] + c[1] * x + c[2] * y + c[3] * x * y + c[4] * z + c[5] * x * z + c[6] * y * z + c[7] * x * y * z)
    if kind == "sep":
        p = [rng.uniform(.3, 2) for _ in range(6)]
        return "sep", table(lambda x, y, z=0: math.sin(p[0] * x + p[3]) * math.exp(-.3 * p[1] * y) * (1 + p[2] * z * z / (1 + z * z)))
    return "rand", table(lambda *a: rng.uniform(-2, 2))


def make_grid(rng, three):
    while True:
        ns = [rng.choice([3, 3, 4, 4, 5, 6]) for _ in range(3 if three else 2)]
        ax = [axis(rng, n) for n in ns]
        kind, f = grid_data(rng, *ax)
        if any(a[i] >= a[i + 1] for a in ax for i in range(len(a) - 1)): continue
        w = 1 if kind == "lin" else well3(ax[0], ax[1], ax[2], f) if three else well2(ax[0], ax[1], f)[0]
        if w < 60: return kind, ax, f


def N03(chk):
    rng = chk.rng
    chk.model_check("MC_Interp", workers=8)
    batches = []
    for b in range(18 if chk.thorough else 6):
        cmds = []
        for g in range(16 if chk.thorough else 8):
            three = g % 2 == 1
            kind, ax, f = make_grid(rng, three)
            op = "tri" if three else "bi"
            def make(axes, data):
                dims = [len(data), len(data[0])] + ([len(data[0][0])] if three else [])
                txt = "%s %s %s %s %s" % (op, " ".join(map(str, dims)), " ".join(str(len(a)) for a in axes), hs(flat(data)), " ".join(hs(a) for a in axes))
                e = dict(e=op, d=nest(data, 3 if three else 2), x=[hx(v) for v in axes[0]], y=[hx(v) for v in axes[1]])
                if three: e["z"] = [hx(v) for v in axes[2]]
                return txt, e
            cmds.append(make(ax, f))
            def evals(n):
                for _ in range(n):
                    p = [pick(rng, a) for a in ax]
                    out = rng.random() < .06
                    if out:
                        q = rng.randrange(len(p)); p[q] = rng.choice([ax[q][0] - rng.random() * 3, ax[q][-1] + rng.random() * 3])
                    e = dict(e="teval" if three else "beval", x=hx(p[0]), y=hx(p[1]), lin=kind == "lin", out=out)
                    if three: e["z"] = hx(p[2])
                    cmds.append(("%s %s" % (e["e"], hs(p)), e))
                # every node of a few grid lines
                if kind != "lin":
                    j = [rng.randrange(len(a)) for a in ax]
                    for q in range(len(ax)):
                        for v in ax[q]:
                            p = [ax[t][j[t]] if t != q else v for t in range(len(ax))]
                            e = dict(e="teval" if three else "beval", x=hx(p[0]), y=hx(p[1]), lin=False, out=False)
                            if three: e["z"] = hx(p[2])
                            cmds.append(("%s %s" % (e["e"], hs(p)), e))
            evals(14)
            if rng.random() < .7:  # refused constructions leave the current interpolator alone
                q = rng.randrange(len(ax)); bad = [list(a) for a in ax]
                r = rng.random()
                if r < .25: bad[q] = bad[q] + [bad[q][-1] + 1]
                elif r < .5: bad[q] = bad[q][:-1]
                elif r < .75 and len({len(a) for a in ax}) > 1:
                    o = [t for t in range(len(ax)) if len(ax[t]) != len(ax[q])]
                    if o: bad[q], bad[o[0]] = bad[o[0]], bad[q]
                    else: bad[q] = bad[q][:-1]
                else: bad[q][1] = bad[q][0]
                if bad != ax: cmds.append(make(bad, f))
                evals(2)
            if not three:
                cmds.append(("bget", dict(e="bget")))
                if rng.random() < .5: cmds.append(("bmove", dict(e="bmove"))); cmds.append(("bget", dict(e="bget"))); evals(3)
        batches.append(cmds)
    check(chk, "TraceInterp", batches, "interpolator")
    chk.assumptions += ["real arithmetic of spec/java/Num.java (80 digits)", "grids whose Akima blends are ill-conditioned are not generated"]


# ------------------------------------------------------------------------------------------------ N04
def N04(chk):
    rng = chk.rng
    chk.model_check("MC_Grid", workers=4)
    cmds = []
    def add(op, a, b, n): cmds.append(("%s %s %s %d" % (op, hx(a), hx(b), n), dict(e=op, a=hx(a), b=hx(b), ask=n)))
    for op in ("lin", "log"):
        for n in list(range(0, 18)) + [40, 41, 100, 257, 1000]:
            for a, b in ((1.0, 2.0), (2.0, 1.0), (1.0, 1e6), (1e12, 1e3), (3.0, 3.0)):
                add(op, a, b, n)
        add(op, 1e-3, 1e3, 4000)
    for n in range(0, 12):
        for a, b in ((0.0, 1.0), (-1.0, 1.0), (-5.0, -2.0), (0.0, -7.5), (1.0, 1.0), (1e9, 1e9 + 1)): add("lin", a, b, n)
    for _ in range(1500 if chk.thorough else 300):
        n = rng.choice([1, 2, 3, 4, 5, 7, 10, 33, 120, 501])
        if rng.random() < .5: add("lin", rng.uniform(-10, 10) * 10 ** rng.randint(-3, 12), rng.uniform(-10, 10) * 10 ** rng.randint(-3, 12), n)
        else: add("log", 10 ** rng.uniform(-12, 20), 10 ** rng.uniform(-12, 20), n)
    check(chk, "TraceGrid", [cmds[i::6] for i in range(6)], "grid")
    chk.assumptions += ["real arithmetic of spec/java/Num.java (80 digits)", "strict order is required where the spacing exceeds accumulated rounding"]


# ------------------------------------------------------------------------------------------------ N05
def N05(chk):
    rng = chk.rng
    chk.model_check("MC_Matrix", workers=8)
    cmds = []
    def unitary(n):
        import cmath
        U = [[complex(i == j) for j in range(n)] for i in range(n)]
        for _ in range(2 * n):
            if n < 2: break
            i, j = rng.sample(range(n), 2); t, d = rng.uniform(0, 3), cmath.exp(1j * rng.uniform(0, 6))
            c, s = math.cos(t), math.sin(t)
            for r in range(n):
                x, y = U[r][i], U[r][j]; U[r][i], U[r][j] = c * x + s * d * y, -s * d.conjugate() * x + c * y
        return [[z * cmath.exp(.3j * (i + 1)) for z in r] for i, r in enumerate(U)]
    def fl(M): return [v for r in M for z in r for v in (z.real, z.imag)]
    for t in range(700 if chk.thorough else 180):
        op = rng.choice(["conj", "umuc", "umuc", "ucmu", "ucmu"])
        r = rng.choice([1, 2, 2, 3, 3, 4, 5, 6]); c = r if op != "conj" else rng.choice([r, 1, 2, 4, 7])
        pad = rng.choice([0, 0, 1, 2])
        exact = rng.random() < .6
        ent = (lambda: complex(rng.randint(-9, 9), rng.randint(-9, 9))) if exact else (lambda: complex(rng.gauss(0, 1) * 10 ** rng.randint(-6, 6), rng.gauss(0, 1)))
        M = [[ent() for _ in range(c)] for _ in range(r)]
        U = []
        if op != "conj": U = unitary(r) if not exact or rng.random() < .2 else [[ent() for _ in range(r)] for _ in range(r)]
        ex = exact and all(v == int(v) for v in fl(U))
        if op == "conj" and rng.random() < .2: M[0][0] = complex(0.0, 0.0)
        cmds.append(("%s %d %d %d %s %s" % (op, r, c, pad, hs(fl(U)), hs(fl(M))),
                     dict(e=op, rows=r, exact=ex, m0=[hx(v) for v in fl(M)], u0=[hx(v) for v in fl(U)])))
    check(chk, "TraceMatrix", [cmds[i::6] for i in range(6)], "matrix helper")
    chk.assumptions += ["real arithmetic of spec/java/Num.java (80 digits)"]
