"""B01-B03: bodies and tracks (body.h, body.cpp) against spec/Body.tla."""
import math, os
import vp
from checks_num import hx, hs, LIBS
import checks_files as cf

KM, CM = 5.06773093741e6 * 1.0e3, 5.06773093741e6 * 1.0e-2
KINDS = ["vac", "const", "var", "earth", "sun", "sunas", "earthatm"]
SUNR, SUNNU = 695980.0 * KM, 694439.0 * KM


def body_driver(chk):
    return chk.compile("body", [os.path.join(vp.HARN, "body_driver.cpp")] + [os.path.join(vp.REPO, "src", f) for f in ("body.cpp", "tools.cpp", "resources.cpp")],
                       libs=LIBS, flags=["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"], opt="-O1")


class Hist:
    """Builds one history of commands, keeping the little it needs to stay inside the documented preconditions."""
    def __init__(self, rng):
        self.rng = rng; self.cmds = [("units", dict(e="units"))]; self.b = {}; self.t = {}; self.names = {}; self.nn = 0

    def add(self, txt, **ev): self.cmds.append((txt, ev))

    # ---- tables
    def nodes(self, k, n):
        rng = self.rng
        hi = rng.choice([1.0, 1.0, .9, .97, .5]) if k != "var" else 10 ** rng.uniform(0, 9)
        lo = rng.choice([0.0, 0.0, .1, .3]) * hi
        if rng.random() < .4: return [lo + (hi - lo) * i / (n - 1) for i in range(n)]
        x = sorted({lo, hi} | {lo + (hi - lo) * rng.random() for _ in range(n - 2)})
        return x
    def column(self, x, hi):
        rng = self.rng; r = rng.random()
        if r < .2: return [rng.choice([0.0, hi / 2, hi])] * len(x)
        if r < .45: return sorted([rng.random() * hi for _ in x], reverse=True)
        if r < .6:
            y, v = [], rng.random() * hi      # layers: plateaus with steps
            for _ in x:
                if rng.random() < .3: v = rng.random() * hi
                y.append(v)
            return y
        if r < .8: return [hi * math.exp(-4 * (q / x[-1] if x[-1] else 0)) for q in x]
        return [rng.random() * hi for _ in x]
    def body(self, s, k=None, bad=.12):
        rng = self.rng; k = k or rng.choice(KINDS)
        if k == "vac": self.add("body %d vac" % s, e="body", s=s, k=k); self.b[s] = dict(k=k); return True
        if k == "const":
            r, y = rng.choice([0.0, 2.7, 13.0, rng.random() * 20]), rng.choice([.5, 0.0, 1.0, rng.random()])
            self.add("body %d const %s %s" % (s, hx(r), hx(y)), e="body", s=s, k=k, rho=hx(r), ye=hx(y)); self.b[s] = dict(k=k); return True
        x = self.nodes(k, rng.choice([3, 4, 5, 5, 7, 9, 14, 22]))
        d, c = self.column(x, rng.choice([13.0, 150.0, 1.0])), self.column(x, 1.0)
        how = 0 if k == "var" else rng.choice([0, 1, 2])
        broken = rng.random() < bad
        if how == 0:
            if broken:
                w = rng.choice(["short", "short", "long", "few", "order", "equal", "empty"])
                t = rng.choice([x, d, c])
                if w == "short": t.pop()
                elif w == "long": t.append(t[-1] + 1)
                elif w == "few": n = rng.choice([1, 2]); x, d, c = x[:n], d[:n], c[:n]
                elif w == "order": i = rng.randrange(len(x) - 1); x[i], x[i + 1] = x[i + 1], x[i]
                elif w == "equal": i = rng.randrange(len(x) - 1); x[i + 1] = x[i]
                else: x, d, c = [], [], []
            self.add("body %d %s 0 %d %s %d %s %d %s" % (s, k, len(x), hs(x), len(d), hs(d), len(c), hs(c)), e="body", s=s, k=k, how=0, x=[hx(v) for v in x], d=[hx(v) for v in d], c=[hx(v) for v in c])
        else:
            fmt = rng.choice(["%.6g", "%.12g", "%r", "%.8e"])
            cols = 3 if k in ("earth", "earthatm") else rng.choice([7, 7, 12])
            rows = []
            for i in range(len(x)):
                r = [fmt % rng.uniform(0, 10) for _ in range(cols)]
                for j, v in zip((0, 1, 2) if cols == 3 else (1, 3, 6), (x[i], d[i], c[i])): r[j] = fmt % v
                rows.append(r)
            if broken:
                w = rng.choice(["cols", "cols", "few", "order", "ragged", "empty"])
                if w == "cols": n = rng.choice([1, 2]) if cols == 3 else rng.choice([1, 2, 4, 6]); rows = [r[:n] for r in rows]
                elif w == "few": rows = rows[:rng.choice([1, 2])]
                elif w == "order": rows.reverse()
                elif w == "ragged": rows[-1].pop()
                else: rows = []
            txt = "# model\n" * 0 + "".join(" ".join(r) + "\n" for r in rows)
            self.add("body %d %s %d x%s" % (s, k, how, txt.encode().hex()), e="body", s=s, k=k, how=how, rows=rows)
            x = [float(r[0 if cols == 3 else 1]) for r in rows if len(r) == cols] if not broken else x
            if not broken and any(x[i] >= x[i + 1] for i in range(len(x) - 1)): broken = True   # printed alike
        if broken: return s in self.b
        self.b[s] = dict(k=k, x=x, h=22.0)
        return True

    # ---- tracks
    def pos(self, lo, hi):
        rng = self.rng; r = rng.random()
        if r < .15: return lo
        if r < .3: return hi
        if r < .4: return (lo + hi) / 2
        return lo + (hi - lo) * rng.random()
    def chordx(self, t, r):
        """positions on a line at which the distance to the centre is r (in the body's unit)."""
        q = r * r - t["m"] ** 2
        return [t["c"] - math.sqrt(q), t["c"] + math.sqrt(q)] if q >= 0 else [t["c"]]
    def track(self, s, k=None, b=None):
        rng = self.rng; k = k or rng.choice(KINDS); v, a, bb = [], "-", ""
        t = dict(k=k)
        if k in ("vac", "const", "var", "sun"):
            top = dict(vac=1e4 * KM, const=1e4 * KM, sun=SUNR * 1.2).get(k) or (b["x"][-1] * 1.1 * CM if b and "x" in b else 1e9 * CM)
            xf = self.pos(0, top); n = rng.choice([1, 2, 3])
            v = [xf] if n == 1 else [self.pos(0, xf), xf] if n == 2 else [self.pos(0, top), self.pos(0, xf), xf]
            t.update(lo=-.05 * top, hi=top)
        elif k == "earth":
            base = rng.choice([2 * 6371.0, 295.0, 1300.0, rng.random() * 12742, rng.random() * 12742, 12742 * (1 - 10 ** rng.uniform(-9, -2))]) * KM
            if rng.random() < .08: base = rng.uniform(12742.1, 20000) * KM
            n = rng.choice([1, 1, 3, 4])
            v = [base] if n == 1 else [self.pos(0, base), self.pos(0, base), base] if n == 3 else [self.pos(0, base), self.pos(0, base), self.pos(0, base), base]
            t.update(lo=0.0, hi=base, c=base / 2 / KM, m=math.sqrt(max(0, 6371.0 ** 2 - (base / KM) ** 2 / 4)), u=KM, R=6371.0)
        elif k == "sunas":
            imp = rng.choice([0.0, SUNNU, SUNNU * rng.random(), SUNNU * rng.random(), SUNNU * 10 ** rng.uniform(-12, -5), SUNNU * 10 ** rng.uniform(-10, -1), SUNNU * (1 - 10 ** rng.uniform(-10, -1))])
            xf = 2 * math.sqrt(SUNNU ** 2 - imp ** 2); n = rng.choice([1, 1, 2, 3])
            v = [imp] if n == 1 else [self.pos(0, xf), imp] if n == 2 else [self.pos(0, xf), self.pos(0, xf), imp]
            t.update(lo=0.0, hi=xf, c=xf / 2, m=imp, u=1.0, R=SUNNU)
        else:
            forms = ["phi", "cos", "xphi"]
            ab = [i for i, q in self.b.items() if q["k"] == "earthatm"]
            if ab: forms += ["bphi", "bcos"] * 3
            a = rng.choice(forms); H = 22.0
            c = rng.choice([-1.0, 1.0, 0.0, -.5, rng.uniform(-1, 1), rng.uniform(-1, 1), rng.uniform(-.05, .05), -1 + 10 ** rng.uniform(-12, -1)])
            if a in ("bphi", "bcos"):
                bi = rng.choice(ab); bb = " %d" % bi; H = self.b[bi]["h"]
            elif rng.random() < .4: H = rng.choice([0.0, 10.0, 60.0, rng.uniform(1, 100)])
            first = [c if a in ("cos", "bcos") else math.acos(c)]
            A = 6371.0 + H
            L = (math.sqrt(A * A - 6371.0 ** 2 * (1 - c * c)) - 6371.0 * c) * KM
            v = first if bb else first + [6371.0 * KM, H * KM]
            if a == "xphi": v = [self.pos(0, L)] + v
            t.update(lo=0.0, hi=L, H=H, c=math.sqrt(A * A - 6371.0 ** 2 * (1 - c * c)), m=6371.0 * math.sqrt(max(0, 1 - c * c)), u=KM, R=A)
        ev = dict(e="track", s=s, k=k, a=a, v=[hx(x) for x in v])
        if bb: ev["b"] = bi
        self.add("track %d %s %s %d %s%s" % (s, k, a, len(v), hs(v), bb), **ev); self.t[s] = t

    def where(self, s, body=None):
        """An interesting position on track s."""
        rng = self.rng; t = self.t[s]; r = rng.random()
        if body and "x" in body and r < .55:
            x = rng.choice(body["x"] + [body["x"][0], body["x"][-1]]); j = rng.choice([0, 0, 0, 1, -1]) * 10 ** rng.uniform(-15, -3)
            if "R" not in t: return x * (1 + j) * (CM if t["k"] == "var" else SUNR)
            p = rng.choice(self.chordx(t, x * t["R"])) * t["u"] * (1 + j)
            if t["lo"] <= p <= t["hi"]: return p
        if "R" in t and r < .7:
            p = rng.choice(self.chordx(t, 6371.0 if t["u"] == KM else t["R"])) * t["u"]
            if t["lo"] <= p <= t["hi"]: return p
        if "R" in t and r < .85: return min(t["hi"], t["c"] * t["u"] * (1 + rng.choice([0, 1, -1]) * 10 ** rng.uniform(-12, -6)))
        return self.pos(t["lo"], t["hi"])
    def fits(self, b, t): return b in self.b and t in self.t and self.b[b]["k"] == self.t[t]["k"] and (self.b[b]["k"] != "earthatm" or self.b[b]["h"] == self.t[t]["H"])
    def setx(self, s, x): self.add("setx %d %s" % (s, hx(x)), e="setx", s=s, x=hx(x))
    def at(self, b, t):
        self.add("at %d %d" % (b, t), e="at", b=b, t=t)
    def probe(self, n=1):
        pairs = [(b, t) for b in self.b for t in self.t if self.fits(b, t)]
        self.rng.shuffle(pairs)
        for b, t in pairs[:n]:
            if self.rng.random() < .85: self.setx(t, self.where(t, self.b[b]))
            self.at(b, t)
    def get(self):
        for s in self.t: self.add("tget %d" % s, e="tget", s=s)
        for s in self.b: self.add("bget %d" % s, e="bget", s=s)
    def newname(self): self.nn += 1; return "n%d" % self.nn
    def save(self, w, s):
        n = self.rng.choice(list(self.names)) if self.names and self.rng.random() < .2 and self.names else self.newname()
        if n in self.names and self.names[n][0] != w: n = self.newname()
        self.add("save %s %d %s" % (w, s, n), e="save", w=w, s=s, n=n); self.names[n] = (w, dict(self.b[s] if w == "b" else self.t[s]))
        return n
    def load(self, n, d):
        w, q = self.names[n]; self.add("load %s %s %d" % (w, n, d), e="load", w=w, n=n, d=d)
        (self.b if w == "b" else self.t)[d] = dict(q)
    def step(self, kinds):
        rng = self.rng; r = rng.random()
        if r < .12 or not self.b: self.body(rng.randint(1, 4), rng.choice(kinds))
        elif r < .32 or not self.t:
            b = rng.choice(list(self.b.values())); self.track(rng.randint(1, 4), b["k"] if rng.random() < .8 else rng.choice(kinds), b)
        elif r < .4: s = rng.choice(list(self.t)); self.add("rev %d" % s, e="rev", s=s)
        elif r < .45: s = rng.choice(list(self.t)); self.setx(s, self.where(s))
        elif r < .51: s, d = rng.choice(list(self.t)), rng.randint(1, 4); self.add("tcopy %d %d" % (s, d), e="tcopy", s=s, d=d); self.t[d] = dict(self.t[s])
        elif r < .56: s, d = rng.choice(list(self.b)), rng.randint(1, 4); self.add("bcopy %d %d" % (s, d), e="bcopy", s=s, d=d); self.b[d] = dict(self.b[s])
        elif r < .6: s, v = rng.choice(list(self.b)), rng.randint(0, 1); self.add("icd %d %d" % (s, v), e="icd", s=s, v=bool(v))
        elif r < .65:
            q = [s for s in self.b if self.b[s]["k"] == "earthatm"]
            if q: s = rng.choice(q); hh = rng.choice([22.0, 0.0, 60.0, 100.0, rng.uniform(1, 80)]); self.add("seth %d %s" % (s, hx(hh)), e="seth", s=s, h=hx(hh)); self.b[s]["h"] = hh
        elif r < .74: self.save("t", rng.choice(list(self.t)))
        elif r < .81: self.save("b", rng.choice(list(self.b)))
        elif r < .95:
            if self.names: self.load(rng.choice(list(self.names)), rng.randint(1, 4))
        elif r < .97: self.add("reopen", e="reopen")
        else:
            n = rng.choice(["", "Body", "BodyTrack", "earth", "EarthTrack ", "VacuumTrack" if rng.random() < .5 else "Vacuumm", "EmittingVacuum"]); w = "b" if "Track" in n and n != "BodyTrack" else rng.choice("tb") if n not in ("EarthTrack ",) else "b"
            self.add("unknown %s x%s" % (w, n.encode().hex()), e="unknown")


def finish(chk, hists, what):
    exe = body_driver(chk)
    runs = [(cf.run_text(chk, exe, "%d" % i, h.cmds), h.cmds) for i, h in enumerate(hists)]
    cf.judge(chk, "TraceBody", runs, what)
    chk.assumptions += ["units from the stand-in for SQuIDS (harness/shim)", "real arithmetic of spec/java/Num.java (80 digits)"]


def B01(chk):
    chk.model_check("MC_Body", workers=8)
    rng = chk.rng; hs_ = []
    for i in range(60 if chk.thorough else 14):
        h = Hist(rng)
        k = KINDS[2 + i % 5]
        for _ in range(5):
            if not h.body(1, k, bad=.3): continue
            if h.b[1]["k"] != k: continue
            if k == "earthatm" and rng.random() < .5: hh = rng.choice([0.0, 10.0, 60.0]); h.add("seth 1 %s" % hx(hh), e="seth", s=1, h=hx(hh)); h.b[1]["h"] = hh
            for _ in range(5):
                if k == "earthatm":
                    for _ in range(20):
                        h.track(1, k, h.b[1])
                        if h.fits(1, 1): break
                else: h.track(1, k, h.b[1])
                if not h.fits(1, 1): continue
                for _ in range(9): h.setx(1, h.where(1, h.b[1])); h.at(1, 1)
        h.body(2, "vac"); h.body(3, "const"); h.track(2, "vac"); h.track(3, "const"); h.probe(3)
        h.get(); hs_.append(h)
    finish(chk, hs_, "density and composition of bodies")


def B02(chk):
    chk.model_check("MC_Body", workers=8)
    rng = chk.rng; hs_ = []
    for i in range(60 if chk.thorough else 12):
        h = Hist(rng); h.body(1, "earthatm", bad=0); h.body(2, rng.choice(KINDS), bad=0)
        for s in range(1, 5): h.track(s, KINDS[(i + s) % 7])
        for _ in range(45):
            r = rng.random()
            if r < .25: h.track(rng.randint(1, 4), rng.choice(KINDS + ["earthatm", "earth", "sunas"]))
            elif r < .45: s = rng.randint(1, 4); h.add("rev %d" % s, e="rev", s=s)
            elif r < .65: s = rng.randint(1, 4); h.setx(s, h.where(s))
            elif r < .8: s, d = rng.randint(1, 4), rng.randint(1, 4); h.add("tcopy %d %d" % (s, d), e="tcopy", s=s, d=d); h.t[d] = dict(h.t[s])
            elif r < .9 and h.b[1]["k"] == "earthatm": hh = rng.choice([0.0, 22.0, 60.0, rng.uniform(1, 80)]); h.add("seth 1 %s" % hx(hh), e="seth", s=1, h=hx(hh)); h.b[1]["h"] = hh
            elif r < .95: s = rng.randint(1, 4); n = h.save("t", s); h.load(n, rng.randint(1, 4))
            for s in h.t: h.add("tget %d" % s, e="tget", s=s)
            h.probe(1)
        hs_.append(h)
    finish(chk, hs_, "tracks")


def B03(chk):
    chk.model_check("MC_Body", workers=8)
    rng = chk.rng; hs_ = []
    for i in range(60 if chk.thorough else 14):
        h = Hist(rng); k = KINDS[i % 7]
        ks = [k, k, rng.choice(KINDS)]
        for _ in range(40):
            h.step(ks); h.get() if rng.random() < .5 else None; h.probe(2)
        for s in list(h.b): n = h.save("b", s); h.load(n, s)
        for s in list(h.t): n = h.save("t", s); h.load(n, s)
        h.get(); h.probe(4); hs_.append(h)
    finish(chk, hs_, "saved and restored bodies and tracks")
