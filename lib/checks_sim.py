"""S01-S07: the simulation (nuSQuIDS.h, nuSQuIDS.cpp) against spec/Sim.tla."""
import math, os
import vp
from concurrent.futures import ThreadPoolExecutor
from checks_num import hx, hs, LIBS
import checks_files as cf

NU, ANTI, BOTH = 1, 2, 3
MASS, FLAVOR, INTER = 1, 2, 3
GEV = 1e9
KM = 5.0677309374099995e9
SRC = ["nuSQuIDS.cpp", "body.cpp", "tools.cpp", "xsections.cpp", "taudecay.cpp", "resources.cpp"]


def driver(chk):
    return chk.compile("sim", [os.path.join(vp.HARN, "sim_driver.cpp")] + [os.path.join(vp.REPO, "src", f) for f in SRC],
                       libs=LIBS, flags=["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"], opt="-O1")


class Hist:
    """Builds a history of commands; m[slot] is a light picture of the simulations, to aim the commands."""
    def __init__(self, rng, kinds=("lay", "const", "vac"), nmax=4):
        self.rng = rng; self.cmds = [("units", dict(e="units"))]; self.m = {}; self.nl = 0; self.kinds = kinds; self.nmax = nmax; self.files = {}; self.L = (60, 1500); self.evos = 0

    def add(self, txt, **ev): self.cmds.append((txt, ev))

    # ---- construction
    def energies(self, ne, lo=.6, hi=12):
        rng = self.rng; v = sorted(math.exp(rng.uniform(math.log(lo), math.log(hi))) * GEV for _ in range(ne))
        while any(b / a < 1.12 for a, b in zip(v, v[1:])): v = sorted(math.exp(rng.uniform(math.log(lo), math.log(hi))) * GEV for _ in range(ne))
        return v
    def xs(self, tg, E, gr=False, scale=1.0, bad=None):
        """A library of tables; returns (driver text, event record)."""
        rng = self.rng; ne = len(E); txt, tots, difs = [], [], []
        for t in range(2 if tg == "pn" else 1 if tg == "iso" else 0):
            tot = [[[[rng.uniform(.3, 4) * 1e-33 * scale for _ in E] for _ in range(2)] for _ in range(2)] for _ in range(3)]
            dif = [[[[[0.0 if rng.random() < .15 else rng.uniform(.1, 1) * tot[f][y][c][k] / (E[k] / GEV) for _ in E] for k in range(ne)] for c in range(2)] for y in range(2)] for f in range(3)]
            if bad == "neg" and t == 0: f, c = rng.randrange(3), rng.randrange(2); tot[f][0][c] = tot[f][1][c] = [-1e-33] * ne
            tots.append(tot); difs.append(dif)
            txt.append("%d %d %s %s %s" % ((2212, 2112)[t] if tg == "pn" else 81, ne, hs(E), hs([v for f in tot for y in f for c in y for v in c]), hs([v for f in dif for y in f for c in y for k in c for v in k])))
        if gr: txt.append("11 0")
        H = lambda x: [H(y) for y in x] if isinstance(x, list) else hx(x)
        return "%d %s" % (len(txt), " ".join(txt)), dict(tg=tg, gr=gr, valid=bad is None, tot=H(tots), dif=H(difs))
    def newe(self, s): self.add("newe %d" % s, e="newe", s=s); self.m[s] = dict(k="empty", n=0, nt=1, ne=0, nr=0, E=[], t=0, xs=None, inter=False, one=False)
    def new1(self, s, n=None, nt=None):
        rng = self.rng; n = n or rng.choice([3, 3, 4, 5][:self.nmax - 1]); nt = nt or rng.choice([NU, ANTI]); self.add("new1 %d %d %d" % (s, n, nt), e="new1", s=s, n=n, nt=nt)
        if 3 <= n <= 6 and nt in (1, 2): self.m[s] = dict(k="live", n=n, nt=nt, ne=1, nr=1, E=[], inter=False, one=True, xs=None); self.acc(s)
        else: self.m.pop(s, None)
    def newm(self, s, n=None, nt=None, ne=None, inter=False, tg=None, E=None, gr=False, bad=None, scale=1.0):
        rng = self.rng; n = n or rng.choice([3, 3, 4, 5][:self.nmax - 1]); nt = nt or rng.choice([NU, ANTI, BOTH]); E = E or self.energies(ne or rng.choice([1, 2, 3, 4]))
        if inter and tg != "null": x, rec = self.xs(tg or rng.choice(["pn", "iso"]), E, gr, scale, bad)
        else: x, rec = "-1", dict(tg="none")
        self.add("newm %d %d %d %d %d %s %s" % (s, n, nt, int(inter), len(E), hs(E), x), e="newm", s=s, n=n, nt=nt, inter=bool(inter), E=[hx(v) for v in E], xs=rec)
        if 3 <= n <= 6 and nt in (1, 2, 3): self.m[s] = dict(k="live", n=n, nt=nt, ne=len(E), nr=2 if nt == BOTH else 1, E=E, inter=inter, one=False, xs=rec)
        else: self.m.pop(s, None)
        self.add("tol %d 0x1p-31" % s, e="tol", s=s); self.add("rk8 %d" % s, e="rk8", s=s)
    def acc(self, s): self.add("tol %d 0x1p-31" % s, e="tol", s=s); self.add("rk8 %d" % s, e="rk8", s=s)

    # ---- configuration
    def body(self, s, kind=None, inj=None, same=None, layers=None):
        rng = self.rng; kind = kind or rng.choice(self.kinds)
        if kind == "vac": self.add("body %d vac" % s, e="body", s=s, body=dict(k="vac"))
        elif kind == "null": self.add("body %d null" % s, e="body", s=s, body=dict(k="null"))
        elif kind == "const": r, y = rng.uniform(.5, 12), rng.choice([.5, 1.0, 0.0, rng.random()]); self.add("body %d const %s" % (s, hs([r, y])), e="body", s=s, body=dict(k="const", rho=hx(r), ye=hx(y)))
        else:
            if same is not None: b, rec = same
            else:
                b = self.nl % 10; self.nl += 1; k = layers or rng.choice([1, 2, 3, 4]); at = sorted(rng.uniform(-400, 2500) * KM for _ in range(k - 1)); rho = [rng.choice([rng.uniform(.5, 13), 0.0, 3.0]) for _ in range(k)]; ye = [rng.choice([.5, .466, 1.0, 0.0, rng.random()]) for _ in range(k)]
                inj = inj or []
                self.add("lay %d %d %s %d %s" % (b, k, hs(at + rho + ye), len(inj), hs(inj)), e="lay", s=b)
                rec = dict(k="lay", slot=b, at=[hx(v) for v in at], rho=[hx(v) for v in rho], ye=[hx(v) for v in ye], inj=[hx(v) for v in inj])
            self.add("body %d lay %d" % (s, b), e="body", s=s, body=rec)
            if s in self.m: self.m[s]["lay"] = (b, rec)
        if s in self.m: self.m[s]["body"] = kind
    def track(self, s, a=None, b=None, kind=None, back=None):
        rng = self.rng; m = self.m.get(s, {}); kind = kind or m.get("body") or "vac"
        if kind not in ("vac", "const", "lay"): kind = "vac"
        if a is None: a = rng.choice([0.0, 0.0, rng.uniform(-300, 300) * KM])
        if b is None:
            d = rng.uniform(*self.L) * KM; back = rng.random() < .2 if back is None else back; b = a - d if back else a + d
        self.add("track %d %s %s" % (s, kind, hs([a, a, b])), e="track", s=s, k="t", a=hx(a), b=hx(b))
        if s in self.m: self.m[s]["track"] = (a, b)
    def E(self, s, E=None): E = E or self.energies(1)[0]; self.add("E %d %s" % (s, hx(E)), e="E", s=s, E=hx(E)); m = self.m.get(s, {}); m["E"] = [E] if m.get("ne") == 1 else m.get("E", []); m["ok"] = False
    def st(self, s, b=None, dims=None, pure=None, v=None):
        rng = self.rng; m = self.m.get(s, dict(ne=1, n=3, nr=1, nt=1)); b = b or rng.choice([FLAVOR, FLAVOR, MASS])
        if dims is None: dims = [m["ne"], m["nr"], m["n"]] if m["nt"] == BOTH else [m["n"]] if m["ne"] == 1 and rng.random() < .6 else [m["ne"], m["n"]]
        N = 1
        for d in dims: N *= d
        if v is None:
            if pure is None: pure = rng.random() < .3
            v = [0.0] * N if pure else [rng.choice([0.0, 1.0, rng.random(), rng.uniform(.1, 3)]) for _ in range(N)]
            if pure:
                n = dims[-1] or 1
                for q in range(0, N, n): v[q + rng.randrange(n)] = 1.0
        self.add("st %d %d %d %s %s" % (s, b, len(dims), " ".join(map(str, dims)), hs(v)), e="st", s=s, b=b, d=dims, v=[hx(x) for x in v])
        m["ok"] = True
    def params(self, s, k=3):
        rng = self.rng; n = self.m.get(s, dict(n=3))["n"] or 3
        for _ in range(k):
            w = rng.randrange(3); j = rng.randrange(1, n); i = rng.randrange(j)
            if w == 0: v = rng.uniform(-1.5, 1.5); self.add("mix %d %d %d %s" % (s, i, j, hx(v)), e="mix", s=s, i=i, j=j, v=hx(v))
            elif w == 1: v = rng.uniform(-3, 6); self.add("ph %d %d %d %s" % (s, i, j, hx(v)), e="ph", s=s, i=i, j=j, v=hx(v))
            else: v = rng.choice([7e-5, 2.5e-3, -2.4e-3, rng.uniform(-8e-3, 8e-3), 0.0]); self.add("dm %d %d %s" % (s, j, hx(v)), e="dm", s=s, i=j, v=hx(v))
        if s in self.m: self.m[s]["ok"] = False
    def flag(self, s, f, on):
        self.add("%s %d %d" % (f, s, int(on)), e=f, s=s, on=bool(on))
        if f == "osc" and s in self.m: self.m[s]["ok"] = False
    def evo(self, s): self.add("evo %d" % s, e="evo", s=s); self.evos += 1

    # ---- questions
    def ask(self, s, k=4, wild=False):
        rng = self.rng; m = self.m.get(s, dict(n=3, ne=1, nr=1, E=[1e9], one=True)); n, ne, nr, E = m["n"] or 3, m["ne"] or 1, m["nr"] or 1, m["E"] or [1e9]
        for _ in range(k):
            w = rng.choice(["n", "n", "n", "e", "e", "a"] + (["1", "s"] if m.get("one") else [])); q = rng.choice("ffm")
            f, e, r = rng.randrange(n), rng.randrange(ne), rng.randrange(nr)
            x = rng.choice([rng.choice(E), rng.uniform(E[0], E[-1]), E[0], E[-1], E[0] + (E[-1] - E[0]) * rng.random()])
            if wild and rng.random() < .3:
                z = rng.randrange(5)
                if z == 0: f = rng.choice([n, n + 1, 77, -1])
                elif z == 1: e = rng.choice([ne, ne + 1, -1])
                elif z == 2: r = rng.choice([nr, 1, 2, -1])
                elif z == 3: x = rng.choice([E[0] * .99, E[-1] * 1.01, 0.0, -1.0, float("nan")])
                else: w = rng.choice(["1", "s"])
            un = lambda v: v if v >= 0 else 4294967295  # as the library's unsigned arguments
            if w == "n": self.add("%sn %d %d %d %d" % (q, s, f, e, r), e=q + "n", s=s, f=f, n=e, rho=r)
            elif w == "e": self.add("%se %d %d %s %d" % (q, s, f, hx(x), r), e=q + "e", s=s, f=f, E=hx(x), rho=r)
            elif w == "a":
                sc = rng.choice([.5, 3.0, 20.0, 1e9, 0.01]); av = n if not wild or rng.random() < .8 else rng.choice([0, n - 1, n + 1])
                self.add("%sa %d %d %s %d %s %d" % (q, s, f, hx(x), r, hx(sc), av), e=q + "a", s=s, f=f, E=hx(x), rho=r, sc=hx(sc), av=av)
            elif w == "1": self.add("%s1 %d %d" % (q, s, f), e=q + "1", s=s, f=f)
            else: sc = rng.choice([.5, 3.0, 20.0]); self.add("%ss %d %d %s %d" % (q, s, f, hx(sc), n), e=q + "s", s=s, f=f, sc=hx(sc))
    def all(self, s, tol=None):
        m = self.m[s]; x = dict(tol=tol) if tol else {}
        for r in range(m["nr"]):
            for e in range(m["ne"]):
                for f in range(m["n"]):
                    self.add("fn %d %d %d %d" % (s, f, e, r), e="fn", s=s, f=f, n=e, rho=r, **x)
                self.add("mn %d %d %d %d" % (s, self.rng.randrange(m["n"]), e, r), e="mn", s=s, f=int(self.cmds[-1][0].split()[2]) * 0 + 0, n=e, rho=r, **x)
                c = self.cmds[-1]; self.cmds[-1] = (c[0], dict(c[1], f=int(c[0].split()[2])))
    def get(self, s): self.add("get %d" % s, e="get", s=s)
    def getpar(self, s, k=3, wild=False):
        rng = self.rng; n = self.m.get(s, dict(n=3))["n"] or 3
        for _ in range(k):
            j = rng.randrange(1, n); i = rng.randrange(j)
            if wild and rng.random() < .3: j = rng.choice([n, n + 1, 50])
            w = rng.choice(["gmix", "gph", "gdm"])
            if w == "gdm": self.add("gdm %d %d" % (s, j), e="gdm", s=s, i=j)
            else: self.add("%s %d %d %d" % (w, s, i, j), e=w, s=s, i=i, j=j)
    def setup(self, s, **kw):
        self.params(s, self.rng.choice([0, 2, 5])); self.body(s, **kw); self.track(s)
        if self.m[s]["one"] or not self.m[s]["E"]: self.E(s)
        self.st(s)


def play(chk, exe, hists, what, module="TraceSim"):
    with ThreadPoolExecutor(6) as ex: runs = [(evs, h.cmds) for evs, h in zip(ex.map(lambda ih: cf.run_text(chk, exe, "h%d" % ih[0], ih[1].cmds), enumerate(hists)), hists)]
    chk.log("%d histories recorded, %d commands" % (len(runs), sum(len(r[0]) for r in runs)))
    cf.judge(chk, module, runs, what)
    chk.assumptions += ["the SQuIDS library is not available here: harness/shim/SQuIDS stands in for it", "real arithmetic of spec/java/Num.java; answers within 2e-6 (the accuracy asked of the integrator is 5e-10)"]


# ------------------------------------------------------------------------------------------------ S01
def S01(chk):
    """Whole histories: anything may be asked of any simulation at any time."""
    chk.model_check("MC_Sim", cfg="MC_Sim_deep.cfg" if chk.thorough else None, workers=8, timeout=1500)
    exe = driver(chk); rng = chk.rng; hists = []
    for b in range(120 if chk.thorough else 16):
        h = Hist(rng, nmax=4 if chk.thorough else 2); h.L = (60, 600)
        for step in range(rng.choice([30, 60]) if not chk.thorough else rng.choice([60, 140])): wild(h, rng, saves=b % 3 == 0)
        for s in list(h.m):
            h.get(s); h.getpar(s, 2)
        hists.append(h)
    play(chk, exe, hists, "history")


def wild(h, rng, saves=False):
    s = rng.randrange(3); m = h.m.get(s)
    if m is None or rng.random() < .07:
        w = rng.random()
        if w < .15: h.newe(s)
        elif w < .45: h.new1(s, n=rng.choice([2, 3, 3, 3, 4, 7]) if rng.random() < .5 else None, nt=rng.choice([1, 2, 3, 0]) if rng.random() < .3 else None)
        else: h.newm(s, n=rng.choice([3, 3, 3, 4, 2, 7]), ne=rng.choice([1, 2, 3]), inter=rng.random() < .3, bad=rng.choice([None, None, "neg"]), tg=rng.choice(["pn", "iso", "null"]))
        return
    n = m["n"] or 3; w = rng.choice(["cfg"] * 6 + ["body", "track", "E", "st", "st", "evo", "evo", "evo", "par", "par", "flag", "flag", "basis", "ask", "ask", "get", "getpar", "def", "mv", "bad", "xs", "ham"] + (["save", "load"] if saves else []))
    inter = m.get("inter")
    if w == "cfg":
        if not m.get("ok"): h.setup(s)
        elif not inter: h.evo(s); h.ask(s, 2, wild=True)
    elif w == "body": h.body(s, kind=rng.choice(["lay", "lay", "const", "vac", "null"]))
    elif w == "track": h.track(s) if rng.random() < .85 else h.add("track %d null" % s, e="track", s=s, k="null")
    elif w == "E": h.E(s)
    elif w == "st":
        if rng.random() < .6: h.st(s)
        else:
            d = rng.choice([[n], [n + 1], [m["ne"] or 1, n], [2, n], [0, n], [n, n], [m["ne"] or 1, 2, n], [m["ne"] or 1, 1, n], [m["ne"] or 1, 2, n + 1], [m["ne"] or 1, 3, n], [0, 2, n]])
            h.st(s, dims=d, b=rng.choice([FLAVOR, MASS, INTER, FLAVOR]))
            m["ok"] = False
    elif w == "evo":
        if inter and m.get("ok") and "tot" in (m.get("xs") or {}) and m["xs"]["valid"] and (m["n"] > 3 or m["ne"] > 2): h.flag(s, "osc", False) if False else h.get(s)
        else: h.evo(s)
    elif w == "par": h.params(s, rng.choice([1, 2]))
    elif w == "flag":
        f = rng.choice(["osc", "allow", "tau", "gr", "src", "pos", "prog"])
        if f == "osc" or not (f == "src" and m.get("ok")): h.flag(s, f, rng.random() < .5)
    elif w == "basis": b = rng.choice([1, 2, 3]); h.add("basis %d %d" % (s, b), e="basis", s=s, b=b); m["ok"] = m.get("ok") if b == 2 else False
    elif w == "ask": h.ask(s, 4, wild=True)
    elif w == "get": h.get(s)
    elif w == "getpar": h.getpar(s, 2, wild=True)
    elif w == "def": h.add("def %d" % s, e="def", s=s); m["ok"] = False
    elif w == "ham": e, r = rng.choice([0, 0, 1, 5]), rng.choice([0, 0, 1, 2]); h.add("ham %d %d %d" % (s, e, r), e="ham", s=s, n=e, rho=r)
    elif w == "mv": mv(h, rng, s, rng.randrange(3))
    elif w == "xs": h.add("inint %d" % s, e="inint", s=s)
    elif w == "save": save(h, rng, s)
    elif w == "load": load(h, rng, s)
    elif w == "bad":
        z = rng.randrange(4); j = rng.choice([n, n + 1, 4000000000]); i = rng.randrange(n)
        if z == 0: h.add("mix %d %d %d 0x1p-1" % (s, i, j), e="mix", s=s, i=i, j=j if j < 2**31 else 2000000000, v="0x1p-1")
        elif z == 1: h.add("ph %d %d %d 0x1p-1" % (s, j, i), e="ph", s=s, j=i, i=j if j < 2**31 else 2000000000, v="0x1p-1")
        elif z == 2: h.add("dm %d %d 0x1p-9" % (s, j), e="dm", s=s, i=j if j < 2**31 else 2000000000, v="0x1p-9")
        else: h.add("gmix %d %d %d" % (s, j, i), e="gmix", s=s, i=j if j < 2**31 else 2000000000, j=i)


def mv(h, rng, a, b):
    k = rng.choice(["mvc", "mva"])
    if k == "mvc" and a == b: k = "mva"
    h.add("%s %d %d" % (k, a, b), e=k, a=a, b=b)
    if b in h.m and (k == "mvc" or a in h.m) and a != b:
        h.m[a] = h.m[b]; h.m[b] = dict(k="empty", n=0, nt=1, ne=0, nr=0, E=[], xs=None, inter=False, one=False)
    for s in (a, b):
        h.ask(s, 1, wild=True)
        if s in h.m: h.get(s)


def save(h, rng, s):
    f = "f%d" % rng.randrange(2); g = rng.choice(["/", "/", "/a", "/a/b", "c"]); over = rng.random() < .5
    G, P = ("/" + g.strip("/"), "/a" if g == "/a/b" else "/")
    h.add("save %d %s %s 0 - %d" % (s, f, g, int(over)), e="save", s=s, n=f, g=G, par=P, over=over)


def load(h, rng, s, f=None, g=None, new=False):
    f = f or "f%d" % rng.randrange(3); g = g or rng.choice(["/", "/", "/a", "/a/b", "c", "/zzz"]); G = "/" + g.strip("/")
    if new: h.add("newh %d %s %s" % (s, f, g), e="newh", s=s, n=f, g=G)
    else: h.add("load %d %s %s -" % (s, f, g), e="load", s=s, n=f, g=G)


# ------------------------------------------------------------------------------------------------ S02
def S02(chk):
    chk.model_check("MC_Osc", cfg="MC_Osc_deep.cfg" if chk.thorough else None, workers=8, timeout=1500)
    exe = driver(chk); rng = chk.rng; hists = []
    for b in range(60 if chk.thorough else 12):
        h = Hist(rng, nmax=5 if chk.thorough else 3)
        for s in range(2):
            big = b % 6 == 5 and s == 0; n = (rng.choice([4, 5, 6]) if chk.thorough else 4 + b // 6) if big else None
            if rng.random() < .3: h.new1(s, n=n)
            else: h.newm(s, n=n, ne=1 if big else rng.choice([1, 2, 3]), nt=NU + b % 2 if big else None)
            if rng.random() < .4: k = rng.choice([1, 1, 2]); h.add("basis %d %d" % (s, k), e="basis", s=s, b=k)
            for _ in range(2):
                if rng.random() < .5: h.flag(s, "allow", rng.random() < .6)
                if rng.random() < .15: h.flag(s, "osc", rng.random() < .5)
                h.setup(s)
                if rng.random() < .5: e, r = rng.randrange(h.m[s]["ne"]), rng.randrange(h.m[s]["nr"]); h.add("ham %d %d %d" % (s, e, r), e="ham", s=s, n=e, rho=r)
                h.evo(s); h.all(s); h.ask(s, 5)
        hists.append(h)
    play(chk, exe, hists, "oscillation")


# ------------------------------------------------------------------------------------------------ S03
def S03(chk):
    """One way, walked in parts, forth and back, with questions, saves and moves in between, is one way."""
    chk.model_check("MC_Osc", cfg="MC_Osc_deep.cfg" if chk.thorough else None, workers=8, timeout=1500)
    exe = driver(chk); rng = chk.rng; hists = []
    for b in range(80 if chk.thorough else 14):
        h = Hist(rng, kinds=("lay", "lay", "const", "vac"), nmax=4 if chk.thorough else 2); h.L = (60, 900)
        ne = rng.choice([1, 2]); E = h.energies(ne); n = rng.choice([3, 3, 4]) if chk.thorough else 3; nt = rng.choice([NU, ANTI, BOTH])
        for s in range(2): h.newm(s, n=n, nt=nt, E=E)
        h.params(0, 3); par = [(c, dict(ev)) for c, ev in h.cmds if ev.get("s") == 0 and ev["e"] in ("mix", "ph", "dm")]
        for c, ev in par: t = c.split(); h.add(" ".join([t[0], "1"] + t[2:]), **dict(ev, s=1))
        kind = rng.choice(h.kinds); h.body(0, kind=kind)
        bc, be = h.cmds[-1]; t = bc.split(); h.add(" ".join([t[0], "1"] + t[2:]), **dict(be, s=1)); h.m[1]["body"] = kind
        a = rng.choice([0.0, rng.uniform(-200, 200) * KM]); d = rng.uniform(60, 900) * KM
        cuts = sorted([a] + [a + d * rng.uniform(0, 1.1) for _ in range(rng.choice([1, 2, 3]))] + [a + d])
        way = cuts[:] if rng.random() < .5 else [a] + [rng.choice(cuts) for _ in range(rng.choice([2, 3]))] + [a + d]
        way = [x for k, x in enumerate(way) if k == 0 or x != way[k - 1]]
        basis = rng.choice([FLAVOR, MASS]); dims = [ne, h.m[0]["nr"], n] if nt == BOTH else [ne, n]; N = 1
        for x in dims: N *= x
        v = [rng.choice([0.0, 1.0, rng.random()]) for _ in range(N)]
        if rng.random() < .4 and kind != "lay":
            for s in range(2): h.flag(s, "allow", rng.random() < .7)
        fin = way[-1]
        h.track(0, a, fin); h.st(0, b=basis, dims=dims, v=v); h.evo(0)
        h.track(1, way[0], way[1]); h.st(1, b=basis, dims=dims, v=v)
        for k in range(1, len(way)):
            if k > 1: h.track(1, way[k - 1], way[k])
            if rng.random() < .5: between(h, rng, 1)
            if rng.random() < .3: h.flag(1, "pos", rng.random() < .7); h.add("posstep 1 %s" % hx(rng.uniform(.1, 1.5) * d), e="posstep", s=1)
            h.evo(1)
            if kind == "lay" and rng.random() < .5: h.add("asked %d" % be["body"]["slot"], e="asked", s=be["body"]["slot"])
            if rng.random() < .5: between(h, rng, 1)
            if rng.random() < .3: h.all(1)
        h.all(0); h.all(1)
        # further along, and back where it came from
        if rng.random() < .6: h.track(1, fin, a); h.evo(1); h.all(1); h.get(1)
        hists.append(h)
    play(chk, exe, hists, "evolution")


def between(h, rng, s):
    """Things which leave the evolution as it is."""
    w = rng.randrange(6)
    if w == 0: h.ask(s, 3, wild=True)
    elif w == 1: save(h, rng, s)
    elif w == 2: h.add("mvc 5 %d" % s, e="mvc", a=5, b=s); h.add("mva %d 5" % s, e="mva", a=s, b=5)
    elif w == 3: h.add("ham %d 0 0" % s, e="ham", s=s, n=0, rho=0)
    elif w == 4: h.get(s); h.getpar(s, 2)
    else: h.add("prog %d %d" % (s, rng.randrange(2)), e="prog", s=s)


# ------------------------------------------------------------------------------------------------ S04
def S04(chk):
    """Files: what is saved at any time is what is read, by a fresh object or by one with any past."""
    chk.model_check("MC_Sim", workers=8)
    exe = driver(chk); rng = chk.rng; hists = []
    for b in range(80 if chk.thorough else 14):
        h = Hist(rng, nmax=4 if chk.thorough else 2); h.L = (60, 500); pos = {}
        for s in range(2):
            if rng.random() < .3: h.new1(s)
            else: h.newm(s, ne=rng.choice([1, 2, 3]))
            if rng.random() < .3: h.flag(s, "allow", True)
            if rng.random() < .15: h.flag(s, "osc", False)
            if rng.random() < .2: h.add("basis %d 1" % s, e="basis", s=s, b=1)
            h.setup(s)
            if rng.random() < .7: h.evo(s)
        for k in range(4):
            s = rng.randrange(2); f, g = "f%d" % rng.randrange(2), rng.choice(["/", "/", "/a", "/a/b", "c"]); over = rng.random() < .7
            P = "/a" if g == "/a/b" else "/"
            h.add("save %d %s %s 0 - %d" % (s, f, g, int(over)), e="save", s=s, n=f, g="/" + g.strip("/"), par=P, over=over)
            t = rng.choice([2, 3, 1 - s]); fresh = rng.random() < .4
            if not fresh and t not in h.m:
                if rng.random() < .5: h.newe(t)
                else: h.newm(t, ne=rng.choice([1, 2, 3]));
                if rng.random() < .4 and h.m[t]["k"] == "live": h.setup(t); h.evo(t)
            load(h, rng, t, f, g, new=fresh)
            # the driver decides whether it was there; aim questions as if it was
            old = h.m.get(t); h.m[t] = dict(h.m[s]); h.acc(t)
            h.get(t); h.all(t); h.ask(t, 3); h.getpar(t, 2)
            w = rng.random()
            if w < .3: h.evo(t); h.all(t)
            elif w < .5: h.track(t); h.evo(t); h.all(t)
            elif w < .7: h.st(t); h.evo(t); h.all(t)
            if rng.random() < .3: h.evo(s); h.ask(s, 2)
        for s in list(h.m): h.get(s)
        hists.append(h)
    for b in range(20 if chk.thorough else 5):  # with interactions
        h = Hist(rng, kinds=("lay", "const"), nmax=2); h.L = (100, 800); nt = rng.choice([NU, ANTI, BOTH]); osc = rng.random() < .3
        ne = rng.choice([2, 3]) if osc else rng.choice([2, 3, 4]) if nt != BOTH else rng.choice([2, 3]); h.newm(0, n=3, nt=nt, inter=True, tg=rng.choice(["pn", "iso"]), E=h.energies(ne, 2, 60))
        if nt == BOTH and rng.random() < .7: h.flag(0, "tau", True); h.add("taus 0", e="taus", s=0)
        if not osc: h.flag(0, "osc", False)
        h.params(0, 2); h.body(0, layers=1); h.track(0, back=False); h.st(0, pure=False)
        if rng.random() < .3: resume(h, rng, 7, evolve=False)
        h.evo(0); h.all(0); resume(h, rng, 0, evolve=not osc)
        hists.append(h)
    play(chk, exe, hists, "saved state")


# ------------------------------------------------------------------------------------------------ S05
def S05(chk):
    """Moves between simulations at any point of their lives."""
    chk.model_check("MC_Sim", workers=8)
    exe = driver(chk); rng = chk.rng; hists = []
    for b in range(80 if chk.thorough else 14):
        h = Hist(rng, nmax=3 if chk.thorough else 2); h.L = (60, 500)
        for s in range(3):
            r = rng.random()
            if r < .15: h.newe(s)
            elif r < .4: h.new1(s)
            else: h.newm(s, ne=rng.choice([1, 2, 3]), inter=rng.random() < .25, n=3)
            if h.m[s]["k"] == "live" and rng.random() < .8:
                if rng.random() < .3: h.flag(s, "allow", True)
                if rng.random() < .15: h.flag(s, "osc", False)
                h.setup(s)
                if rng.random() < .6 and not h.m[s]["inter"]: h.evo(s)
        for k in range(8):
            a, c = rng.randrange(4), rng.randrange(3); mv(h, rng, a, c); h.acc(a)
            if a in h.m and h.m[a]["k"] == "live":
                if h.m[a].get("ok"): h.all(a)
                w = rng.random()
                if h.m[a]["inter"]: pass
                elif w < .4: h.evo(a); h.all(a)
                elif w < .5: h.params(a, 2); h.st(a); h.evo(a); h.all(a)
                h.getpar(a, 1)
            # the source: used again, or built anew
            w = rng.random()
            if w < .3: h.st(c, dims=[3]); h.evo(c); h.get(c)
            elif w < .6 and c != a: h.newm(c, ne=rng.choice([1, 2]), n=3); h.setup(c); h.evo(c); h.all(c)
            elif w < .7: h.params(c, 1); h.body(c); h.track(c, kind="vac"); h.add("def %d" % c, e="def", s=c)
        for s in list(h.m): h.get(s); h.ask(s, 1)
        hists.append(h)
    play(chk, exe, hists, "moved simulation")


# ------------------------------------------------------------------------------------------------ S06
def S06(chk):
    """Interactions: absorption, scattering to lower energies, regeneration by taus, the Glashow resonance, emission."""
    exe = driver(chk); rng = chk.rng; hists = []
    for b in range(60 if chk.thorough else 10):
        h = Hist(rng, kinds=("lay", "const"), nmax=2); h.L = (100, 1200)
        nt = rng.choice([NU, ANTI, BOTH]); tg = rng.choice(["pn", "iso"]); n = rng.choice([3, 3, 3, 4]) if b % 2 else 3
        osc = rng.random() < .5
        if osc and nt == BOTH: n = 3
        ne = rng.choice([2, 3]) if osc else rng.choice([2, 3] if nt == BOTH else [3, 4]) if not chk.thorough else rng.choice([3, 4, 5]); gr = nt != NU and rng.random() < .45
        if osc and nt == BOTH: ne = 2
        E = sorted(rng.uniform(3e15, 9e15) for _ in range(ne)) if gr else h.energies(ne, 2, 60)
        if gr:
            while any(y / x < 1.05 for x, y in zip(E, E[1:])): E = sorted(rng.uniform(3e15, 9e15) for _ in range(ne))
            h.L = (20, 80)
        scale = (1e-33 if gr else 1.0) * 0 + (rng.uniform(20, 60) if gr else 1.0)
        h.newm(0, n=n, nt=nt, inter=True, tg=tg, E=E, gr=gr, scale=scale)
        if gr: h.flag(0, "gr", True); h.add("grs 0", e="grs", s=0)
        if nt == BOTH and rng.random() < .7: h.flag(0, "tau", True); h.add("taus 0", e="taus", s=0)
        if not osc: h.flag(0, "osc", False)
        src = rng.random() < .35
        if src: h.flag(0, "src", True)
        if rng.random() < .6: h.params(0, 3)
        inj = [rng.choice([0.0, rng.uniform(.1, 2) * 1e-3 / KM]) for _ in range(ne * h.m[0]["nr"] * n)] if src else None
        h.body(0, kind="lay" if src else None, inj=inj, layers=rng.choice([1, 2])); h.track(0, back=False); h.st(0, pure=False)
        for leg in range(rng.choice([1, 2])):
            h.evo(0); h.all(0); h.add("terms 0", e="terms", s=0); h.ask(0, 2)
            if rng.random() < .35: resume(h, rng, leg)
            if leg == 0 and rng.random() < .3: h.body(0, layers=2); h.track(0, back=False); h.st(0, pure=False)
        hists.append(h)
    play(chk, exe, hists, "interaction")


def isave(h, s, f, g, over, sx, cl="-"):
    h.add("save %d %s %s %d %s %d" % (s, f, g, int(sx), cl, int(over)), e="save", s=s, n=f, g="/" + g.strip("/"), par="/", over=over, sx=bool(sx), cl=cl)


def resume(h, rng, leg, evolve=True):
    """An interacting simulation is saved, read into another object and goes on there; then again in the first."""
    shared = rng.random() < .5; cl = "shared" if shared else "-"; t = rng.choice([1, 2]); f, g = "i%d" % leg, rng.choice(["/", "/g", "q"])
    if t not in h.m and rng.random() < .5: h.newm(t, ne=rng.choice([1, 2, 3]), n=3)
    isave(h, 0, f, g, True, True, cl)
    if shared: isave(h, 0, f, "/other", False, False, cl)
    if shared and rng.random() < .5: g = "/other"
    if t in h.m: h.add("load %d %s %s %s" % (t, f, g, cl), e="load", s=t, n=f, g="/" + g.strip("/"), cl=cl)
    elif shared: h.newe(t); h.add("load %d %s %s %s" % (t, f, g, cl), e="load", s=t, n=f, g="/" + g.strip("/"), cl=cl)
    else: h.add("newh %d %s %s" % (t, f, g), e="newh", s=t, n=f, g="/" + g.strip("/"))
    h.m[t] = dict(h.m[0]); h.acc(t); h.get(t); h.all(t); h.add("terms %d" % t, e="terms", s=t)
    if evolve and rng.random() < .5: h.evo(t); h.all(t); h.add("terms %d" % t, e="terms", s=t)


# ------------------------------------------------------------------------------------------------ S07
class AHist:
    def __init__(self, rng): self.rng = rng; self.cmds = [("units", dict(e="units"))]; self.m = {}; self.x = Hist(rng)
    def add(self, txt, **ev): self.cmds.append((txt, ev))
    def new(self, a, nc=None, ne=None, inter=False, nt=None, n=3, many=True):
        rng = self.rng; nt = nt or rng.choice([NU, ANTI, BOTH]); nc = rng.choice([1, 2, 3, 4]) if nc is None else nc; ne = ne or rng.choice([1, 2, 3])
        c = sorted(rng.choice([-1.0, 1.0, 0.0] + [rng.uniform(-1, 1)] * 4) for _ in range(nc))
        while any(y - x < .02 for x, y in zip(c, c[1:])): c = sorted(rng.uniform(-1, 1) for _ in range(nc))
        E = self.x.energies(ne, 1.5, 20)
        if inter: x, rec = self.x.xs(rng.choice(["pn", "iso"]), E, scale=.3)
        else: x, rec = "-1", dict(tg="none")
        self.add("a.new %d %d %d %d %d %s %d %s %s" % (a, n, nt, int(inter), nc, hs(c), ne, hs(E), x), e="new", a=a, n=n, nt=nt, inter=bool(inter), cs=[hx(v) for v in c], E=[hx(v) for v in E], xs=rec)
        if nc and 3 <= n <= 6 and nt in (1, 2, 3): self.m[a] = dict(n=n, nt=nt, nr=2 if nt == BOTH else 1, c=c, E=E, inter=inter, live=True); self.tol(a)
        else: self.m.pop(a, None)
    def tol(self, a): self.add("a.tol %d 0x1p-31" % a, e="tol", a=a)
    def earth(self, a):
        rng = self.rng; v = [rng.choice([22.0, 22.0, 40.0, 15.5]), rng.uniform(.5, 6), rng.choice([.5, 1.0, rng.random()]), rng.choice([0.0, rng.uniform(.5, 11)]), rng.choice([.5, .466])]
        if rng.random() < .2: v[3] = v[1]; v[4] = v[2]
        self.add("a.earth %d %s" % (a, hs(v)), e="earth", a=a, earth=dict(k="halves", h=hx(v[0]), r1=hx(v[1]), y1=hx(v[2]), r2=hx(v[3]), y2=hx(v[4])))
    def threads(self, a): k = self.rng.choice([1, 2, 3, 8, 0]); self.add("a.threads %d %d" % (a, k), e="threads", a=a, want=k)
    def params(self, a, k=2):
        rng = self.rng; n = self.m[a]["n"]
        for _ in range(k):
            w = rng.randrange(3); j = rng.randrange(1, n); i = rng.randrange(j)
            if w == 0: v = rng.uniform(-1, 1); self.add("a.mix %d %d %d %s" % (a, i, j, hx(v)), e="mix", a=a, i=i, j=j, v=hx(v))
            elif w == 1: v = rng.uniform(-3, 3); self.add("a.ph %d %d %d %s" % (a, i, j, hx(v)), e="ph", a=a, i=i, j=j, v=hx(v))
            else: v = rng.choice([7e-5, 2.5e-3, -2.4e-3, rng.uniform(-3e-3, 3e-3)]); self.add("a.dm %d %d %s" % (a, j, hx(v)), e="dm", a=a, i=j, v=hx(v))
    def st(self, a, dims=None):
        rng = self.rng; m = self.m[a]; d = dims or [len(m["c"]), len(m["E"])] + ([2] if m["nt"] == BOTH else []) + [m["n"]]; N = 1
        for x in d: N *= x
        b = rng.choice([FLAVOR, FLAVOR, MASS]); v = [rng.choice([0.0, 1.0, rng.random()]) for _ in range(N)]
        self.add("a.st %d %d %d %s %s" % (a, b, len(d), " ".join(map(str, d)), hs(v)), e="st", a=a, b=b, d=d, v=[hx(x) for x in v])
    def evo(self, a): self.add("a.evo %d" % a, e="evo", a=a)
    def ask(self, a, k=4, wild=False):
        rng = self.rng; m = self.m.get(a, dict(n=3, nr=1, c=[-.5, .5], E=[2e9, 5e9]))
        for _ in range(k):
            f, r = rng.randrange(m["n"]), rng.randrange(m["nr"]); c = rng.choice([rng.choice(m["c"]), rng.uniform(m["c"][0], m["c"][-1]), rng.uniform(m["c"][0], m["c"][-1])]); E = rng.choice([rng.choice(m["E"]), rng.uniform(m["E"][0], m["E"][-1])])
            if wild and rng.random() < .4:
                z = rng.randrange(4)
                if z == 0: f = m["n"] + rng.randrange(3)
                elif z == 1: r = m["nr"] + rng.randrange(2)
                elif z == 2: c = rng.choice([m["c"][0] - .01, m["c"][-1] + .01, float("nan"), 2.0])
                else: E = rng.choice([m["E"][0] * .99, m["E"][-1] * 1.01, float("nan"), 0.0])
            if rng.random() < .3: i, e = rng.randrange(len(m["c"]) + (1 if wild else 0)), rng.randrange(len(m["E"])); self.add("a.node %d %d %d %d %d" % (a, i, f, e, r), e="node", a=a, i=i, f=f, n=e, rho=r)
            elif rng.random() < .7: self.add("a.ev %d %d %s %s %d" % (a, f, hx(c), hx(E), r), e="ev", a=a, f=f, c=hx(c), E=hx(E), rho=r)
            else: sc = rng.choice([.5, 5.0, 1e9]); self.add("a.eva %d %d %s %s %d %s" % (a, f, hx(c), hx(E), r, hx(sc)), e="eva", a=a, f=f, c=hx(c), E=hx(E), rho=r, sc=hx(sc))
    def nodes(self, a):
        m = self.m[a]
        for i in range(len(m["c"])):
            for e in range(len(m["E"])):
                f, r = self.rng.randrange(m["n"]), self.rng.randrange(m["nr"]); self.add("a.node %d %d %d %d %d" % (a, i, f, e, r), e="node", a=a, i=i, f=f, n=e, rho=r)
    def get(self, a): self.add("a.get %d" % a, e="get", a=a)


def S07(chk):
    chk.model_check("MC_Atm", workers=8)
    exe = driver(chk); rng = chk.rng; hists = []
    for b in range(90 if chk.thorough else 12):
        h = AHist(rng)
        for a in range(1 if b % 2 else 2):
            h.new(a, inter=rng.random() < .2, n=rng.choice([3, 3, 4]), ne=2 if b % 3 == 0 else None); m = h.m[a]
            if m["inter"]:
                h.add("a.osc %d 0" % a, e="osc", a=a, on=False)
                if m["nt"] == BOTH and len(m["E"]) < 3 and rng.random() < 0: pass
            h.earth(a); h.threads(a); h.params(a, rng.choice([0, 2]))
            if rng.random() < .3: h.ask(a, 1); h.evo(a)
            if rng.random() < .3: h.st(a, dims=rng.choice([[len(m["c"]) + 1, len(m["E"]), m["n"]], [len(m["c"]), len(m["E"]), 2, m["n"] + 1], [len(m["c"]), len(m["E"]), m["n"]]]))
            h.st(a)
            if rng.random() < .3: h.ask(a, 2)
            h.evo(a); h.nodes(a); h.ask(a, 5, wild=True); h.get(a)
            w = rng.random()
            if w < .2: h.params(a, 1); h.get(a); h.evo(a); h.st(a); h.evo(a); h.nodes(a); h.ask(a, 3)
            elif w < .4:   # a failure in one of them reaches the caller, and does no lasting harm
                i = rng.randrange(len(m["c"])); h.add("a.poison %d %d" % (a, i), e="poison", a=a, i=i); h.threads(a); h.evo(a); h.st(a); h.earth(a); h.st(a); h.evo(a); h.nodes(a); h.ask(a, 3)
            elif w < .6:
                f = "at%d" % rng.randrange(2); over = rng.random() < .6; h.add("a.save %d %s %d" % (a, f, int(over)), e="save", a=a, n=f, over=over)
                q = rng.choice([2, 3, a]); old = h.m.get(q); h.add("a.newh %d %s" % (q, f), e="newh", a=q, n=f); h.m[q] = dict(m); h.nodes(q); h.ask(q, 4); h.tol(q)
                if rng.random() < .5: h.st(q); h.threads(q); h.evo(q); h.nodes(q); h.ask(q, 3)
            elif w < .8:
                k = rng.choice(["mvc", "mva"]); q = 3 if k == "mvc" else rng.choice([a, 0, 1])
                h.add("a.%s %d %d" % (k, q, a), e=k, a=q, b=a)
                if q != a and (k == "mvc" or q in h.m): h.m[q] = h.m.pop(a)
                h.ask(q, 3, wild=True)
                if q in h.m: h.nodes(q); h.st(q); h.threads(q); h.evo(q); h.nodes(q); h.ask(q, 2)
                if q != a: h.new(a, inter=False); h.earth(a); h.st(a); h.evo(a); h.nodes(a)
            else: h.evo(a); h.earth(a); h.st(a); h.evo(a); h.nodes(a); h.ask(a, 3)
        if rng.random() < .2: h.new(4, nc=0); h.new(4, n=2); h.ask(4, 1)
        hists.append(h)
    play(chk, exe, hists, "atmospheric set", "TraceAtm")


CHECKS = dict(S01=S01, S02=S02, S03=S03, S04=S04, S05=S05, S06=S06, S07=S07)
def run(chk): CHECKS[chk.pid](chk)
