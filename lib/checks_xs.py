"""X01-X03: cross-section tables, files and libraries (xsections.h, xsections.cpp) against spec/Xsec.tla."""
import math, os
import vp
from checks_num import hx, hs, LIBS, akima_d, well2
import checks_files as cf

G = 1e9
K1 = ["nu_sigma_CC.dat", "nu_sigma_NC.dat", "nubar_sigma_CC.dat", "nubar_sigma_NC.dat"]
K2 = ["nu_dsde_CC.dat", "nu_dsde_NC.dat", "nubar_dsde_CC.dat", "nubar_dsde_NC.dat"]
H1 = ["s_CC_nu", "s_NC_nu", "s_CC_nubar", "s_NC_nubar"]
H2 = ["dsdy_CC_nu", "dsdy_NC_nu", "dsdy_CC_nubar", "dsdy_NC_nubar"]
FL = ["electron_", "muon_", "tau_"]
DEF = ["data/xsections/csms_square.h5", "data/xsections/csms.h5"]
V1N = ["sigma_CC.dat", "sigma_NC.dat", "dsde_CC.dat", "dsde_NC.dat"]


def driver(chk):
    return chk.compile("xs", [os.path.join(vp.HARN, "xs_driver.cpp")] + [os.path.join(vp.REPO, "src", f) for f in ("xsections.cpp", "tools.cpp", "resources.cpp")],
                       libs=LIBS, flags=["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"], opt="-O1")


def d17(x): return float("%.17g" % x)


class Hist:
    def __init__(self, rng):
        self.rng = rng; self.deep = False; self.share = None; self.cmds = [("units", None)]; self.o = {}; self.lib = {}; self.files = {}; self.np = 0

    def add(self, txt, **ev): self.cmds.append((txt, ev))

    # ---- tables of one object, as logs: x (log10 eV), z, per flavour 4 totals and 4 differentials d[z][E]
    def axis(self):
        rng = self.rng; n = rng.choice([3, 4, 4, 5, 6])
        a = math.log10(rng.choice([1.0, 5.0, 10.0, 12.0, 50.0, 1000.0]) * G); w = rng.uniform(.3, 3)
        if rng.random() < .5: return [a + w * i / (n - 1) for i in range(n)]
        return sorted({a, a + w} | {a + w * (i + rng.uniform(-.3, .3)) / (n - 1) for i in range(1, n - 1)})
    def row(self, x, lo=-40, hi=-32):
        rng = self.rng
        while True:
            r = rng.random(); b = rng.uniform(lo, hi)
            y = [b + rng.choice([.4, 1, .8]) * (v - x[0]) for v in x] if r < .2 else [b + .6 * (v - x[0]) + .3 * math.sin(2 * (v - x[0]) + b) for v in x] if r < .6 else [b + rng.uniform(-1, 1) for _ in x]
            if akima_d(x, y)[1] < 60: return y
    def diff(self, x, z):
        rng = self.rng
        while True:
            b = rng.uniform(-40, -33); r = rng.random(); p, q = rng.uniform(.2, 2), rng.uniform(.5, 3)
            d = [[(b + p * (v - x[0]) + .5 * math.sin(q * u * 2 + v) if r < .6 else b + rng.uniform(-1, 1)) for v in x] for u in z]
            if rng.random() < .6:
                for k in d: k[0] = -50.0
            elif rng.random() < .3: d[-1][rng.randrange(len(x))] = -50.0
            if well2(x, z, d)[0] < 60: return d
    def tables(self, x, z, flav):
        return [dict(tot=[self.row(x) for _ in range(4)], dif=[self.diff(x, z) for _ in range(4)]) for _ in range(flav)]

    # ---- files in the documented layouts
    def text(self, n, rows):
        t = "\n".join(" ".join("%.17g" % v for v in r) for r in rows) + "\n"
        self.add("put %s x%s" % (n, t.encode().hex()), e="put", n=n, rows=[[hx(v) for v in r] for r in rows])
    def each_file(self, per):
        """One complete set of text files; then each of them in turn missing, of another range, of the wrong width, and put right again."""
        rng = self.rng; self.np += 1; p = "e%d_" % self.np; at = len(self.cmds); m = self.dis_text(p, per=per, same=True); m["k"] = "dis"
        puts = {e["n"]: (c, e) for c, e in self.cmds[at:]}; self.load(0, p, m); s = 0
        for n, (c, e) in list(puts.items()):
            rows = [[float.fromhex(v) for v in r] for r in e["rows"]]
            for w in rng.sample(["miss", "first", "last", "cols"], 4 if self.deep else 2) if not per or self.deep else [rng.choice(["miss", "first", "last", "cols"])]:
                if w == "miss": self.add("del " + n, e="del", n=[n])
                elif w == "cols": self.text(n, [r + [1.0] for r in rows])
                else:
                    old = rows[0 if w == "first" else -1][0]; new = d17(old * (.9 if w == "first" else 1.25)); self.text(n, [[new] + r[1:] if r[0] == old else r for r in rows])
                self.load(1, p, m, bad=True)
            self.cmds.append((c, dict(e)))
        self.load(2, p, m); self.queries(2, 4)
    def dis_text(self, p, bad=False, per=None, same=False):
        rng = self.rng; per = (rng.random() < .6) if per is None else per; x = self.axis(); nz = rng.choice([3, 3, 4, 5, 6])
        ge = [d17(10 ** v / G) for v in x]
        files = []
        for f in range(3 if per else 1):
            for i in range(4):
                xs, es = x, ge
                if not same and rng.random() < .1:  # the totals may be sampled at other energies of the same range
                    xs = sorted({x[0], x[-1]} | {rng.uniform(x[0], x[-1]) for _ in range(rng.choice([1, 2, 4]))})
                    es = [ge[0]] + [d17(10 ** v / G) for v in xs[1:-1]] + [ge[-1]]
                    xs = [math.log10(e * G) for e in es]
                y = self.row(xs); files.append([(FL[f] if per else "") + K1[i], [[e, d17(10 ** v)] for e, v in zip(es, y)]])
                z = [k / (nz - 1) for k in range(nz)]
                d = self.diff(x, z)
                files.append([(FL[f] if per else "") + K2[i], [[ge[j], z[k], 0.0 if d[k][j] == -50.0 else d17(10 ** d[k][j])] for j in range(len(x)) for k in range(nz)]])
        drop = None
        if bad:
            w = rng.choice(["miss", "cols", "ragged", "range", "short", "few", "order"]); q = rng.choice(files)
            if w == "miss": drop = q[0]
            elif w == "cols": q[1][:] = [r + [1.0] for r in q[1]] if rng.random() < .5 else [r[:-1] for r in q[1]]
            elif w == "ragged": q = rng.choice([a for a in files if "dsde" in a[0]]); q[1].pop()
            elif w == "range":
                if len(q[1][0]) == 2: q[1][-1][0] = d17(q[1][-1][0] * 1.25)
                else:
                    last = q[1][-1][0]
                    for r in q[1]:
                        if r[0] == last: r[0] = d17(last * 1.25)
            elif w == "short": q = rng.choice([a for a in files if "sigma" in a[0]]); q[1].pop(1)  # may leave enough
            elif w == "few": q = rng.choice([a for a in files if "dsde" in a[0]]); q[1][:] = q[1][:nz]
            elif w == "order": q = rng.choice([a for a in files if "sigma" in a[0]]); q[1][0][0], q[1][1][0] = q[1][1][0], q[1][0][0]
            rng.shuffle(files)
        for n, r in files:
            if n != drop: self.text(p + n, r)
        return dict(x=x, z=[k / (nz - 1) for k in range(nz)])
    def dis_h5(self, n, bad=False):
        rng = self.rng; per = rng.random() < .6 or self.share is not None; x = self.axis(); nz = rng.choice([3, 4, 5, 5, 6])
        if rng.random() < .4: nz = len(x)
        z = [k / (nz - 1) for k in range(nz)]
        if rng.random() < .3: z = sorted({0.0, 1.0} | {rng.uniform(.05, .95) for _ in range(nz - 2)})
        T = self.tables(x, z, 3 if per else 1)
        alias = {0: 0, 1: 1, 2: 2}
        if per and rng.random() < .4: alias = rng.choice([{0: 0, 1: 0, 2: 2}, {0: 0, 1: 1, 2: 0}, {0: 0, 1: 1, 2: 1}, {0: 0, 1: 0, 2: 0}])
        if self.share is not None: alias = dict(enumerate(self.share))
        txt = "h5put %s d energies 1 %d %s d zs 1 %d %s" % (n, len(x), hs(x), len(z), hs(z))
        miss = rng.choice(["miss", "shape", "layout"]) if bad else None; where = (rng.randrange(3 if per else 1), rng.randrange(8))
        if miss: where = (alias[where[0]] if per else 0, where[1])
        for f in range(3 if per else 1):
            pre = ""
            if per:
                g = FL[f][:-1]
                if miss == "layout" and f == where[0]: continue
                if alias[f] != f:
                    if not (miss == "layout" and alias[f] == where[0]): txt += " l %s %s" % (FL[alias[f]][:-1], g)
                    continue
                txt += " g " + g; pre = g + "/"
            for i in range(4):
                for nm, dims, data, q in ((H1[i], [len(x)], T[f]["tot"][i], i), (H2[i], [len(z), len(x)], [v for r in T[f]["dif"][i] for v in r], i + 4)):
                    if miss in ("miss", "layout") and (not per or miss == "miss") and (f, q) == where: continue
                    if miss == "shape" and (f, q) == where:
                        if q < 4: dims, data = [len(x) + 1], data + [-38.0]
                        else: dims, data = [len(z), len(x) + 1], data + [-38.0] * len(z)
                    txt += " d %s%s %d %s %s" % (pre, nm, len(dims), " ".join(map(str, dims)), hs(data))
        fl = [T[alias[f]] if per else T[0] for f in range(3)]
        self.add(txt, e="h5put", n=n, k="dis", x=[hx(v) for v in x], z=[hx(v) for v in z], bad=bool(miss),
                 fl=[dict(tot=[[hx(v) for v in y] for y in t["tot"]], dif=[[[hx(v) for v in r] for r in y] for y in t["dif"]]) for t in fl])
        return dict(x=x, z=z)
    def v1_data(self):
        rng = self.rng; n = rng.choice([2, 3, 4, 5, 7]); a = rng.choice([1.0, 10.0, 15.0, 100.0]); b = a * 10 ** rng.uniform(.5, 4)
        e = [a * (b / a) ** (i / (n - 1)) for i in range(n)]; e[0], e[-1] = a, b
        s = [[[[rng.uniform(.1, 9) * 1e-36 for _ in e] for _ in range(3)] for _ in range(2)] for _ in range(2)]
        d = [[[[[0.0 if (h >= g and rng.random() < .9) else rng.uniform(.1, 9) * 1e-38 for h in range(n)] for g in range(n)] for _ in range(3)] for _ in range(2)] for _ in range(2)]
        return n, e, s, d
    def v1_text(self, p, bad=False):
        rng = self.rng; n, e, s, d = self.v1_data(); e = [d17(v) for v in e]
        files = [[V1N[c], [[e[i]] + [s[c][q % 2][q // 2][i] for q in range(6)] for i in range(n)]] for c in range(2)]
        files += [[V1N[2 + c], [[e[i], e[j]] + [d[c][q % 2][q // 2][i][j] for q in range(6)] for i in range(n) for j in range(n)]] for c in range(2)]
        drop = None
        if bad:
            w = rng.choice(["miss", "cols", "rows"]); q = rng.choice(files)
            if w == "miss": drop = q[0]
            elif w == "cols": q[1][:] = [r[:-1] for r in q[1]] if rng.random() < .7 else [r + [0.0] for r in q[1]]
            else: q[1].pop()
        for nm, r in files:
            if nm != drop: self.text(p + nm, r)
        return dict(x=[math.log10(v * G) for v in e], z=[])
    def v1_h5(self, n_, bad=False):
        rng = self.rng; n, e, s, d = self.v1_data()
        def flat(v): return [w for q in v for w in flat(q)] if isinstance(v, list) else [v]
        miss = rng.choice(["attr", "set", "shape", "flav"]) if bad else None
        which = rng.randrange(4); names = ["s_CC", "s_NC", "dsDE_CC", "dsDE_NC"]
        txt = "h5put %s a Emin %s" % (n_, hx(e[0] * G))
        if miss != "attr": txt += " a Emax %s" % hx(e[-1] * G)
        for i, v in enumerate([s[0], s[1], d[0], d[1]]):
            dims = [2, 3, n] + ([n] if i > 1 else []); data = flat(v)
            if i == which and miss == "set": continue
            if i == which and miss == "shape": dims[-1] += 1; data = [1e-38] * (6 * (n + 1) * (n if i > 1 else 1))
            if i == which and miss == "flav": dims[1] = 2; data = data[:len(data) // 3 * 2]
            txt += " d %s %d %s %s" % (names[i], len(dims), " ".join(map(str, dims)), hs(data))
        def h(v): return [h(q) for q in v] if isinstance(v, list) else hx(v)
        self.add(txt, e="h5put", n=n_, k="v1", emin=hx(e[0] * G), emax=hx(e[-1] * G), sg=h(s), d=h(d), bad=bool(miss))
        return dict(x=[math.log10(v * G) for v in e], z=[])

    # ---- objects
    def new_files(self, kind=None, bad=False, p=None):
        self.np += 1; k = kind or self.rng.choice(["dt", "dh", "dh", "vt", "vh"]); p = p or "f%d_" % self.np
        m = {"dt": self.dis_text, "dh": self.dis_h5, "vt": self.v1_text, "vh": self.v1_h5}[k](p, bad); m["k"] = "dis" if k[0] == "d" else "v1"
        if not bad: self.files[p] = m
        return p, m
    def load(self, s, p, m, bad=False):
        self.add("load %d %s %s" % (s, m["k"], "-" if p in DEF else p), e="load", s=s, k=m["k"], p=p)
        if not bad: self.o[s] = dict(m)
    def formula(self, s):
        rng = self.rng; k = rng.choice(["glashow", "null", "law"])
        if k == "law":
            p = rng.choice([-2.0, -1.0, 0.0, .5, 1.0, 2.0, 3.0, .363, -1.7]); q = 10 ** rng.uniform(-40, -30)
            self.add("mk %d law %s %s" % (s, hx(p), hx(q)), e="mk", s=s, k=k, p=("%g" % p) if p in (-1.0,) else hx(p), q=hx(q))
        else: self.add("mk %d %s%s" % (s, k, rng.choice(["", "c", "m"]) if k[0] == "g" else ""), e="mk", s=s, k=k)
        self.o[s] = dict(k=k)
    def save(self, s):
        """Writes the object and loads it again; every later query of either goes on being judged."""
        rng = self.rng; m = self.o[s]; self.np += 1; p = "w%d_" % self.np; d = rng.random() > .08
        q = p if d else "nowhere/" + p
        if rng.random() < .5: self.add("wt %d %s" % (s, q), e="wt", s=s, p=q, dir=d)
        else: lev = rng.choice([0, 0, 1, 5, 9]) if m["k"] == "dis" else 0; self.add("wh %d %s %d" % (s, q, lev), e="wh", s=s, p=q, dir=d)
        return (p, m) if d else None

    # ---- queries
    def who(self, k): return self.rng.choice([0, 0, 1, 1, 2, 2, 3] if self.rng.random() < .3 else [0, 1, 2]), self.rng.randrange(2), self.rng.randrange(2) if k in ("dis", "v1") else self.rng.randrange(3)
    def energy(self, m, low=True):
        rng = self.rng; r = rng.random()
        if m["k"] == "glashow": return rng.choice([6.3e15, 6.32e15, 1.2e13, 1e14, 1e16, 1e17]) * rng.choice([1.0, rng.uniform(.99, 1.01), rng.uniform(.9, 1.1)])
        if m["k"] not in ("dis", "v1"): return 10 ** rng.uniform(8, 16)
        x = m["x"]
        if r < .35: return 10 ** rng.choice(x)
        if r < .75: return 10 ** rng.uniform(x[0], x[-1])
        if r < .8: return 10 ** x[-1] * rng.choice([1.001, 2.0, 1 + 1e-9])
        if r < .84: return 10 ** x[-1]
        if r < .86: return 10 ** x[0]
        if low: return 10 ** x[0] * rng.choice([.5, .999, .01, .9]) if r < .95 else rng.choice([9.99e9, 1e10, 1.01e10, 1e9])
        return 10 ** rng.uniform(x[0], x[-1])
    def tot(self, s):
        m = self.o[s]; f, t, c = self.who(m["k"]); E = self.energy(m)
        if m["k"] in ("dis", "v1") and abs(E / 10 ** m["x"][-1] - 1) < 1e-12: E = "max"
        elif m["k"] in ("dis", "v1") and abs(E / 10 ** m["x"][0] - 1) < 1e-12: E = "min"
        self.q("tot", s, [E], f, t, c, ["E"])
    def q(self, op, s, args, f, t, c, names):
        self.cmds.append(("%s %d @ %d %d %d" % (op, s, f, t, c), dict(e=op, s=s, f=f, t=t, c=c, _a=args, _n=names)))
    def out(self, m, E):
        """An outgoing energy for an incoming one."""
        rng = self.rng
        if m["k"] == "dis":
            lo = 10 ** m["x"][0]; r = rng.random()
            if r < .3 and E > lo: return lo + (E - lo) * rng.choice(m["z"])
            if r < .8: return lo + (E - lo) * rng.random()
            return lo * rng.choice([.5, .9, .99])
        if m["k"] == "v1":
            g = [10 ** v for v in m["x"]]
            return rng.choice([v for v in g if v <= E] or [g[0]]) * (1 if rng.random() < .5 else rng.uniform(1, 2)) if rng.random() < .5 else 10 ** rng.uniform(m["x"][0], max(m["x"][0], math.log10(E)))
        return E * rng.choice([rng.random(), 1.0, 1.5, rng.random()])
    def sd(self, s):
        m = self.o[s]; f, t, c = self.who(m["k"]); E = self.energy(m)
        if m["k"] == "v1" and abs(E / 10 ** m["x"][0] - 1) < 1e-12: E *= 1.001
        if m["k"] == "v1" and E < 10 ** m["x"][0]: F = E * .9
        else: F = self.out(m, E)
        if m["k"] == "v1" and F < 10 ** m["x"][0] <= E: F = 10 ** m["x"][0] * 1.0001
        if m["k"] in ("dis", "v1") and abs(E / 10 ** m["x"][-1] - 1) < 1e-12: E = "max"
        self.q("sd", s, [E, F], f, t, c, ["E", "F"])
    def avg(self, s):
        rng = self.rng; m = self.o[s]; f, t, c = self.who(m["k"]); a, b = self.energy(m, False), self.energy(m, False)
        if m["k"] == "law": b = a * 10 ** rng.choice([.001, .01, .1, .5, 1.0, 0.0])
        elif rng.random() < .3: b = a * rng.choice([1.0, 1.001, 1.1])
        if rng.random() < .5:
            if a > b and rng.random() < .7: a, b = b, a
            self.q("avt", s, [a, b], f, t, c, ["a", "b"])
        else:
            E = max(a, b) * rng.choice([1.0, 1.3])
            if m["k"] in ("dis", "v1") and rng.random() < .7: E = min(E, 10 ** m["x"][-1] * .9999)
            if m["k"] == "v1":
                lo = 10 ** m["x"][0]; a, b = max(a, lo * 1.0001), max(b, lo * 1.0001)
                if E < lo * 1.01: E = lo * 1.01
            if m["k"] == "glashow": b = max(b, a * 1.0001)
            self.q("avs", s, [E, a, b], f, t, c, ["E", "a", "b"])
    def dd(self, s):
        if self.o[s]["k"] == "v1": return  # not part of its public interface
        f, t, c = self.who(self.o[s]["k"]); self.q("dd", s, [1e12, .1, .2], f, t, c, ["E", "F", "G"])
    def queries(self, s, n, w=("tot", "tot", "sd", "sd")):
        for _ in range(n): getattr(self, self.rng.choice(w))(s)
    # every node of an object, for every flavour, type and current
    def nodes(self, s):
        m = self.o[s]; x = m["x"]; self.rng.random()
        js = list(range(len(x))); self.rng.shuffle(js)
        for f in range(3):
            for t in range(2):
                for c in range(2):
                    j = js[(f + t + c) % len(js)]
                    self.q("tot", s, [("node", j)], f, t, c, ["E"])
                    if m["k"] == "dis": self.q("sd", s, [("node", max(1, j)), ("z", self.rng.randrange(len(m["z"])))], f, t, c, ["E", "F"])
                    else: self.q("sd", s, [("node", j if j else 1), ("low", self.rng.randrange(len(x)))], f, t, c, ["E", "F"])


def run(chk, exe, name, h):
    """Two passes: the reported energy ranges of loaded objects are used as query arguments (a request exactly at an end)."""
    def render(ends):
        cmds = []; cur = {}; at = -1
        for i, (c, e) in enumerate(h.cmds):
            if e is None: cmds.append((c, dict(e="skip"))); continue
            e = dict(e)
            if e["e"] == "load": cur[e["s"]] = ends.get(i, (1e10, 1e12))
            if "_a" in e:
                args, names = e.pop("_a"), e.pop("_n"); m = h.cmds[i]; vals = []
                lo, hi = cur.get(e["s"], (0, 0)); x = None
                for a in args:
                    if a == "max": a = hi
                    elif a == "min": a = lo
                    elif isinstance(a, tuple):
                        x = snap[i]["x"]
                        if a[0] == "node": a = lo if a[1] == 0 else hi if a[1] >= len(x) - 1 else 10 ** x[min(a[1], len(x) - 1)]
                        elif a[0] == "z": z = snap[i]["z"]; a = lo + (vals[0] - lo) * z[a[1]]
                        else:
                            a = 10 ** x[a[1]] if a[1] else lo
                            if a >= vals[0]: a = lo * 1.01 if lo * 1.01 < vals[0] else vals[0]
                    vals.append(a)
                for k, v in zip(names, vals): e[k] = hx(v)
                c = c.replace("@", hs(vals))
            cmds.append((c, e))
        return cmds
    # the object each query refers to, as generated
    snap = {}; o = {}
    for i, (c, e) in enumerate(h.cmds):
        if e and e["e"] == "load" and "_m" in e: o[e["s"]] = e["_m"]
        if e and "_a" in e: snap[i] = o.get(e["s"], {})
    for c, e in h.cmds:
        if e: e.pop("_m", None)
    loads = [i for i, (c, e) in enumerate(h.cmds) if e and e["e"] == "load"]
    pre = [x if (x[1] is None or "_a" not in x[1]) else None for x in h.cmds]
    first = [(i, x) for i, x in enumerate(pre) if x is not None]
    evs = cf.run_text(chk, exe, name + "p", [(x[0], dict(x[1] or {})) for _, x in first])
    ends = {}
    for (i, x), ev in zip(first, evs):
        if i in loads and ev.get("r") == "ok": ends[i] = (float.fromhex(ev["emin"]), float.fromhex(ev["emax"]))
    cmds = render(ends)
    evs = cf.run_text(chk, exe, name, cmds)
    u = evs[0]
    out = []
    for ev in evs[1:]:
        if ev.get("r") == "none": continue  # nothing was ever loaded there (an earlier save was refused)
        if ev["e"] == "libdef" or ev["e"] == "mk" and ev["k"] == "glashow": ev.update({k: u[k] for k in ("gf", "cm", "me", "mm")})
        out.append(ev)
    return out, cmds[1:]


class H2_(Hist):
    def load(self, s, p, m, bad=False):
        Hist.load(self, s, p, m, bad); self.cmds[-1][1]["_m"] = dict(m)


def go(chk, hists):
    exe = driver(chk)
    runs = [run(chk, exe, "h%d" % i, h) for i, h in enumerate(hists)]
    cf.judge(chk, "TraceXsec", runs, "cross sections")
    chk.assumptions += ["real arithmetic of spec/java/Num.java (80 digits)", "tables whose Akima blends are ill-conditioned are not generated", "units come from a stand-in for the absent SQuIDS library (harness/shim)"]


def X01(chk):
    chk.model_check("MC_Xsec", workers=8)
    rng = chk.rng; hists = []
    for b in range(40 if chk.thorough else 10):
        h = H2_(rng)
        for s in range(3 if chk.thorough else 2):
            kind = ["dt", "dh", "vt", "vh", "dh"][(b + s) % 5]
            p, m = h.new_files(kind); h.load(s, p, m); h.nodes(s); h.queries(s, 26, ("tot", "tot", "sd", "sd", "avg")); h.dd(s)
            if rng.random() < .6:
                q, m2 = h.new_files(kind, bad=True); h.load(5, q, m2, bad=True)
        h.formula(4); h.queries(4, 14, ("tot", "sd", "avg", "avg", "dd"))
        hists.append(h)
    for b in range(6 if chk.thorough else 2):
        h = H2_(rng); h.deep = chk.thorough; h.each_file(b % 2 == 1); hists.append(h)
    go(chk, hists)


def X02(chk):
    chk.model_check("MC_Xsec", workers=8)
    rng = chk.rng; hists = []
    for b in range(40 if chk.thorough else 10):
        h = H2_(rng)
        kind = ["dt", "dh", "dh", "vt", "dh", "vh", "dh", "dh", "dt", "dh"][b % 10]
        h.share = {1: (0, 1, 1), 2: (0, 0, 2), 4: (0, 1, 0), 6: (0, 1, 2), 7: None, 9: (0, 0, 0)}.get(b % 10)  # which flavours share tables
        p, m = h.new_files(kind); h.load(0, p, m); s = 0
        for gen in range(4):
            r = h.save(s)
            if r is None: continue
            s2 = 1 + gen; h.load(s2, r[0], r[1], bad=False); h.nodes(s2); h.queries(s2, 8)
            if rng.random() < .3: h.queries(s, 3)
            s = s2
        hists.append(h)
    go(chk, hists)


def X03(chk):
    chk.model_check("MC_Xsec", workers=8)
    rng = chk.rng; hists = []
    T = [11, 81, 2212, 2112, 1000080160, -11, 0]
    for b in range(24 if chk.thorough else 8):
        h = H2_(rng); slots = []; reg = {}
        for s in range(5):
            if rng.random() < .35: p, m = h.new_files(rng.choice(["dt", "dh", "vt", "vh"])); h.load(s, p, m)
            else: h.formula(s)
        for f in range(4): h.add("br %d" % f, e="br", f=f)
        h.add("libnew 3 0 ", e="libnew", s=3, m=[])
        for _ in range(3):  # the default library and tables: what is in the data directory at the time
            for n in ["csms_proton.h5", "csms_neutron.h5"]:
                if rng.random() < .7: h.new_files("dh", p="data/xsections/" + n, bad=rng.random() < .15)
            h.add("libdef 3", e="libdef", s=3)
        slots.append(3)
        for s, kind, p in ((7, "dh", DEF[0]), (8, "vh", DEF[1])):
            if rng.random() < .3: h.load(s, p, dict(k="dis" if kind[0] == "d" else "v1"), bad=True)
            q, m = h.new_files(kind, p=p); h.load(s, q, m); h.queries(s, 3)
        for L in range(2):
            m = [] if rng.random() < .4 else [[t, rng.randrange(5)] for t in rng.sample(T, rng.choice([1, 2, 3]))]
            h.add("libnew %d %d %s" % (L, len(m), " ".join("%d %d" % tuple(q) for q in m)), e="libnew", s=L, m=m); slots.append(L); reg[L] = {t: dict(h.o[o]) for t, o in m}
        for step in range(70):
            L = rng.choice(slots); r = rng.random()
            if r < .3:
                t, o, how = rng.choice(T), rng.randrange(5), rng.randrange(2)
                if L == 3 and t == 11: continue
                h.add("libadd %d %d %d %d" % (L, t, o, how), e="libadd", s=L, t=t, o=o)
                if L != 3: reg[L].setdefault(t, dict(h.o[o]))
            elif r < .36: d = rng.randrange(3); h.add("libcopy %d %d" % (L, d), e="libcopy", s=L, d=d); slots = sorted(set(slots) | {d}); reg[d] = dict(reg.get(L, {}))
            elif r < .42: h.formula(rng.randrange(5))
            elif r < .8:
                t = rng.choice(T); f, ty, c = rng.randrange(4), rng.randrange(2), rng.randrange(2); E = rng.choice([6.3e15, 1e13, 10 ** rng.uniform(9, 16), 10 ** rng.uniform(10, 12)])
                if t == 11: f, ty, c = rng.choice([(0, 1, 2), (0, 0, 2), (1, 1, 2), (0, 1, 0)]) if rng.random() < .5 else (f, ty, c)
                k = reg.get(L, {}).get(t, dict(k=None))["k"]  # the tables know two currents only
                if k == "glashow" and rng.random() < .7: f, ty, c = 0, 1, 2
                if c == 2 and k not in ("glashow", "null", "law"): c = 1
                h.add("lib %d %d %s %d %d %d" % (L, t, hx(E), f, ty, c), e="lib", s=L, t=t, E=hx(E), f=f, ty=ty, c=c)
            else: h.queries(rng.choice([s for s in range(5)]), 2, ("tot", "sd"))
        for _ in range(8):
            t = rng.choice([11, 2212, 2112, 81]); f, ty, c = rng.randrange(4), rng.randrange(2), rng.randrange(2) if t != 11 else rng.choice([0, 2, 2])
            if t == 11 and rng.random() < .5: f, ty, c = 0, 1, 2
            E = 10 ** rng.uniform(10, 13); h.add("lib 3 %d %s %d %d %d" % (t, hx(E), f, ty, c), e="lib", s=3, t=t, E=hx(E), f=f, ty=ty, c=c)
        h.add("mk 6 glashow", e="mk", s=6, k="glashow"); h.o[6] = dict(k="glashow"); h.queries(6, 40, ("tot", "tot", "sd", "sd", "avg", "dd"))
        for f in range(4):
            for t in range(2):
                for c in range(3): E = h.energy(h.o[6]); h.q("tot", 6, [E], f, t, c, ["E"]); h.q("sd", 6, [E, E * rng.random()], f, t, c, ["E", "F"])
        hists.append(h)
    go(chk, hists)
