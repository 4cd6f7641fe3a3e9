"""T01: tau decay spectra and tables (taudecay.cpp) against spec/TauDecay.tla."""
import os
import vp
from checks_num import hx, hs
import checks_num as cn

LIBS = ["-lhdf5_hl", "-lhdf5", "-lgsl", "-lgslcblas", "-lm"]
CH = ["lepton", "pion", "rho", "a1", "hadron", "all"]
TB = ["enuall", "enulep", "eleall", "elelep"]
ENDS = {"pion": 1 - .07856 ** 2, "rho": 1 - .43335 ** 2, "a1": 1 - .70913 ** 2, "hadron": .3, "lepton": 1.0}


def T01(chk):
    chk.model_check("MC_Tau", workers=8)
    rng = chk.rng
    exe = chk.compile("tau", [os.path.join(vp.HARN, "tau_driver.cpp"), os.path.join(vp.REPO, "src/taudecay.cpp")], libs=LIBS,
                      flags=["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"], opt="-O1")
    batches = []
    # the spectra
    def chan(s, k, a, b): return ("chan %d %s %s %s" % (s, k, hx(a), hx(b)), dict(e="chan", k=k, a=hx(a), b=hx(b)))
    cmds = [("br 1", dict(e="br"))]
    zs = [0.0, 1e-6, .05, .25, .29, .299999, .3, .300001, .31, .45, .5, .6, .75, .9, .99, .9999, 1.0]
    for k, e in ENDS.items():
        for d in (1e-3, 1e-6, 1e-9, 1e-12, 4e-15, 0.0): zs += [e - d, e + d]
    for k in CH:
        for z in zs:
            a = rng.choice([1.0, 1.0, 10.0 ** rng.uniform(-1, 7), 2.0 ** rng.randint(-3, 20)])
            cmds.append(chan(rng.randint(1, 3), k, a, a * z))
        for _ in range(400 if chk.thorough else 60):
            a = 10 ** rng.uniform(-2, 9); cmds.append(chan(rng.randint(1, 3), k, a, a * rng.random()))
    batches.append(cmds)
    # histories of tables
    def grid(same=None):
        n = rng.choice([0, 1, 1, 2, 3, 4, 5, 6, 7, 9])
        if same and rng.random() < .4: n = same            # a new grid of the size already held
        r = rng.random()
        lo = 10 ** rng.uniform(8, 15)
        if r < .4: return [lo * 10 ** (i * rng.choice([.05, .1, .3])) for i in range(n)]
        if r < .7: return [lo * (1 + i * rng.choice([.2, 1])) for i in range(n)]
        if r < .85: return sorted(10 ** rng.uniform(9, 14) for _ in range(n))
        return [10 ** rng.uniform(9, 12) for _ in range(n)]
    for _ in range(40 if chk.thorough else 10):
        cmds, cur = [], {1: None, 2: None, 3: None}
        def sweep(s, full):
            g = cur[s]; n = len(g) if g else 0
            pts = [(i, j, t) for i in range(n) for j in range(n) for t in (0, 1)]
            if not full: rng.shuffle(pts); pts = pts[:8]
            for i, j, t in pts:
                for k in (TB if not full or n < 5 else rng.sample(TB, 2)):
                    cmds.append(("read %d %s %d %d %d" % (s, k, i, j, t), dict(e="read", s=s, k=k, i=i, j=j, t=t)))
            bad = [(n, 0, 0), (0, n, 0), (n, n, 1), (0, 0, 2), (n + 3, 0, 1), (2**31 - 1, 0, 0), (0, 2**31 - 1, 0), (0, 0, 2**31 - 1), (max(n - 1, 0), n, 1), (n, max(n - 1, 0), 0)]
            for i, j, t in (bad if full else rng.sample(bad, 4)):
                for k in TB: cmds.append(("read %d %s %d %d %d" % (s, k, i, j, t), dict(e="read", s=s, k=k, i=i, j=j, t=t)))
        for step in range(18):
            s = rng.randint(1, 3); op = rng.choice(["init"] * 4 + ["copy", "move", "fresh", "chan", "br"])
            if op == "init":
                g = grid(len(cur[s]) if cur[s] else None); cur[s] = g
                cmds.append(("init %d %d %d %s" % (s, rng.choice([0, 0, 0, 0, 1, 2]), len(g), hs(g)), dict(e="init", s=s, g=[hx(x) for x in g])))
                sweep(s, True)
            elif op in ("copy", "move"):
                d = rng.choice([x for x in (1, 2, 3) if x != s]); cur[d] = cur[s]
                if op == "move": cur[s] = None
                cmds.append(("%s %d %d %d" % (op, s, d, rng.randint(0, 1)), dict(e=op, s=s, d=d)))
            elif op == "fresh": cur[s] = None; cmds.append(("fresh %d" % s, dict(e="fresh", s=s)))
            elif op == "br": cmds.append(("br %d" % s, dict(e="br")))
            else: a = 10 ** rng.uniform(0, 5); cmds.append(chan(s, rng.choice(CH), a, a * rng.random()))
            for t in (1, 2, 3): sweep(t, False)
        batches.append(cmds)
    cn.check(chk, "TraceTau", batches, "tau decay", exe=exe)
    chk.assumptions += ["real arithmetic of spec/java/Num.java (80 digits)", "at a kinematic end point (within 1e-15) rounding decides which side"]
