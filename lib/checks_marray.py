"""M01-M05: the multi-dimensional array (marray.h) and the aligned allocator, against spec/Marray.tla and friends."""
import os
from concurrent.futures import ThreadPoolExecutor
import vp

SRC = [os.path.join(vp.HARN, f) for f in ["marray_main.cpp"] + ["marray_t%d.cpp" % i for i in range(1, 7)]]
LISTSHAPE = {1: [3], 2: [2, 3], 3: [2, 1, 2], 4: [1, 2, 1, 2]}
# name: rank, propagation flags (copy, move, swap), select-on-copy changes the allocator, logging allocator, tracked elements
TYPES = {"int1": (1, 0, 0, 0, 0, 0, 0), "int2": (2, 0, 0, 0, 0, 0, 0), "int3": (3, 0, 0, 0, 0, 0, 0), "int4": (4, 0, 0, 0, 0, 0, 0),
         "dbl1": (1, 0, 0, 0, 0, 0, 0), "dbl2": (2, 0, 0, 0, 0, 0, 0), "dbl3": (3, 0, 0, 0, 0, 0, 0),
         "str1": (1, 0, 0, 0, 0, 0, 0), "str2": (2, 0, 0, 0, 0, 0, 0), "str3": (3, 0, 0, 0, 0, 0, 0),
         "nm1": (1, 0, 0, 0, 0, 1, 1), "nm2": (2, 0, 0, 0, 0, 1, 1), "nm3": (3, 0, 0, 0, 0, 1, 1),
         "cp1": (1, 0, 0, 0, 0, 1, 1), "cp2": (2, 0, 0, 0, 0, 1, 1), "cp3": (3, 0, 0, 0, 0, 1, 1), "nm4": (4, 1, 1, 1, 0, 1, 1),
         "p100": (2, 1, 0, 0, 0, 1, 1), "p010": (2, 0, 1, 0, 1, 1, 1), "p001": (2, 0, 0, 1, 1, 1, 1),
         "p110": (2, 1, 1, 0, 0, 1, 1), "p101": (1, 1, 0, 1, 1, 1, 1), "p011": (3, 0, 1, 1, 0, 1, 1), "p111": (2, 1, 1, 1, 1, 1, 1)}


def cfg_json(name):
    rk, a, b, c, soc, led, tr = TYPES[name]
    return '{"e":"reset","ty":"%s","cfg":{"rk":%d,"pcca":%d,"pcma":%d,"pcs":%d,"soc":%d,"led":%d,"tr":%d}}' % (name, rk, a, b, c, soc, led, tr)


def prod(x):
    r = 1
    for i in x: r *= i
    return r


class Gen:
    """Random operation histories; tracks shapes and allocators only so as to respect the documented preconditions."""
    def __init__(self, rng, name, focus):
        self.rng, self.name, self.focus = rng, name, focus
        self.R, self.pcca, self.pcma, self.pcs, self.soc, self.led, _ = TYPES[name]
        self.sh, self.al, self.next, self.ops = {}, {}, 1, []

    def dims(self, lim=0):
        lim = lim or (48 if self.R > 2 else 24)
        while True:
            d = [self.rng.choice([0, 1, 1, 2, 2, 2, 3, 3, 4, 5]) if self.rng.random() < .93 else 7 for _ in range(self.R)]
            if prod(d) <= lim and (prod(d) or self.rng.random() < .3): return d

    def val(self):
        self.next += 1
        return self.next

    def j(self, *x): return " ".join(str(v) for v in x)

    def make(self, s):
        r, k = self.rng, self.rng.random()
        al = r.choice([1, 2, 3]) if self.led else 1
        d = self.dims()
        if k < .08: self.emit("new0 %d %d" % (s, al)); self.sh[s] = [0] * self.R
        elif k < .22: self.emit(self.j("new", s, al, *d)); self.sh[s] = d
        elif k < .34: self.emit(self.j("newc", s, al, *d)); self.sh[s] = d
        elif k < .40: self.emit(self.j("newd", s, 0, *d)); self.sh[s] = d; al = 0
        elif k < .46: self.emit(self.j("noinit", s, al, *d)); self.sh[s] = d
        elif k < .54: d = LISTSHAPE[self.R]; self.emit(self.j("list", s, al, 0, *d, ":", *[self.val() for _ in range(6)])); self.sh[s] = d
        else: self.emit(self.j("iter", s, al, *d, ":", *[self.val() for _ in range(prod(d))])); self.sh[s] = d
        self.al[s] = al

    def bad(self):
        """an operation that must be refused"""
        r = self.rng; s = r.randrange(4); k = r.randrange(6)
        wrong = r.choice([n for n in range(1, 6) if n != self.R])
        known = [x for x in self.sh if self.sh[x] is not None]
        if k == 0: self.emit(self.j(r.choice(["new", "newc", "newd", "noinit"]), s, r.choice([0]) if False else 1, *[2] * wrong))
        elif k == 1: self.emit(self.j("list", s, 1, 1, *LISTSHAPE[self.R], ":", *range(1, 7)))
        elif k == 2:
            d = list(LISTSHAPE[self.R]); d[r.randrange(self.R)] = r.choice([0, 1, 2, 3, 4]);
            if d == LISTSHAPE[self.R]: d[0] += 1
            self.emit(self.j("list", s, 1, 0, *d, ":", *range(1, 7)))
        elif k == 3:
            d = self.dims(); n = max(0, prod(d) + r.choice([-2, -1, 1, 2]))
            if n == prod(d): n += 1
            self.emit(self.j("iter", s, 1, *d, ":", *range(1, n + 1)))
        elif known:
            s = r.choice(known)
            if k == 4: self.emit(self.j(r.choice(["resizen", "reshape"]), s, *[1] * wrong))
            else:
                d = self.dims()
                if prod(d) == prod(self.sh[s]): d[0] += 1
                if prod(d) == prod(self.sh[s]): d = [5] * self.R
                if prod(self.sh[s]) % 65536 == 0 and self.R > 1 and r.random() < .5: d = [1] * (self.R - 2) + [65536, 32767]
                self.emit(self.j("reshape", s, *d))
                if r.random() < .4 and self.sh[s] != LISTSHAPE[self.R]: self.emit(self.j("lassign", s, r.randrange(2), ":", *range(1, 7)))

    def emit(self, op):
        noinject = op.split()[0] in ("set", "del", "swap")
        if self.focus == "faults" and not noinject and self.rng.random() < .6: op = "F " + op
        self.ops.append(op)

    def step(self):
        r = self.rng
        known = [x for x in self.sh if self.sh[x] is not None]
        k = r.random()
        if not known or k < .12: self.make(r.randrange(4)); return
        if k < .17: self.bad(); return
        if k < .20:
            s = r.choice(list(self.sh)); self.emit("del %d" % s); del self.sh[s]; del self.al[s]; return
        pair = .55 if self.focus == "moves" else (.45 if self.focus == "faults" else .32)
        if k < pair:
            t = r.choice(known); o = r.choice(["copy", "move", "cassign", "cassign", "massign", "swap"])
            if o in ("copy", "move"):
                s = r.choice([x for x in range(4) if x != t])
                self.emit("%s %d %d" % (o, s, t)); self.sh[s] = self.sh[t]; self.al[s] = self.al[t] + (10 if o == "copy" and self.soc and self.led else 0)
                if o == "move": self.sh[t] = None
            elif o == "cassign":
                s = r.choice(list(self.sh)); self.emit("cassign %d %d" % (s, t)); self.sh[s] = self.sh[t]
                if self.pcca: self.al[s] = self.al[t]
            elif o == "massign":
                s = r.choice(list(self.sh)); self.emit("massign %d %d" % (s, t))
                if s != t:
                    self.sh[s] = self.sh[t]; self.sh[t] = None
                    if self.pcma: self.al[s], self.al[t] = self.al[t], self.al[s]
                    if self.led: self.al[t] = -99
            else:
                s = r.choice(known)
                if self.led and not self.pcs and (self.al[s] != self.al[t] or self.al[s] < 0): return
                self.emit("swap %d %d" % (s, t)); self.sh[s], self.sh[t] = self.sh[t], self.sh[s]
                if self.pcs: self.al[s], self.al[t] = self.al[t], self.al[s]
            return
        s = r.choice(known); sh = list(self.sh[s]); dim = r.randrange(self.R)
        o = r.choice(["set", "set", "fill", "insert", "insert", "insert", "insertd", "erase", "erase", "resize", "resize", "resizen", "reshape", "lassign"])
        if o == "set":
            if prod(sh): self.emit(self.j("set", s, r.randrange(4), *[r.randrange(x) for x in sh], ":", self.val()))
        elif o == "fill": self.emit("fill %d : %d" % (s, self.val()))
        elif o in ("insert", "insertd"):
            num = r.choice([0, 1, 1, 2, 3]); sh[dim] += num
            if prod(sh) <= 64:
                self.emit(self.j(o, s, dim, r.randint(0, self.sh[s][dim]), num, *([":", self.val()] if o == "insert" else []))); self.sh[s] = sh
        elif o == "erase":
            if sh[dim]:
                pos = r.randrange(sh[dim]); num = r.randint(0, sh[dim] - pos); self.emit(self.j("erase", s, dim, pos, num)); sh[dim] -= num; self.sh[s] = sh
        elif o == "resize":
            sh[dim] = r.choice([0, 1, 2, 2, 3, 4, 5])
            if prod(sh) <= 64: self.emit(self.j("resize", s, dim, sh[dim])); self.sh[s] = sh
        elif o == "resizen":
            d = self.dims(64); self.emit(self.j("resizen", s, *d)); self.sh[s] = d
        elif o == "reshape":
            d = list(sh); r.shuffle(d)
            if self.R > 1 and r.random() < .5:
                i, k2 = r.sample(range(self.R), 2); d[i] *= d[k2]; d[k2] = 1
            if prod(d) == prod(sh): self.emit(self.j("reshape", s, *d)); self.sh[s] = d
        elif o == "lassign":
            if sh != LISTSHAPE[self.R] and r.random() < .6:
                self.emit(self.j("resizen", s, *LISTSHAPE[self.R])); self.sh[s] = LISTSHAPE[self.R]
            self.emit(self.j("lassign", s, r.choice([0, 0, 0, 1]), ":", *[self.val() for _ in range(6)]))

    def script(self, n):
        for _ in range(n): self.step()
        return "%s|%s|%s" % (self.name, cfg_json(self.name), ";".join(self.ops))


def array_check(chk, names, focus, nscripts, nops):
    chk.model_check("MC_Marray", "MC_Marray_1.cfg", workers=8)
    chk.model_check("MC_Marray", "MC_Marray_2.cfg", workers=8)
    chk.model_check("MC_Marray", "MC_Marray_3.cfg", workers=8)
    if focus != "edits":
        for c in "01": chk.model_check("ArrayMemAlg", "ArrayMemAlg_%s.cfg" % c, workers=8)
    exe = chk.compile("marray", SRC, opt="-O1")
    lines = [Gen(chk.rng, n, focus).script(nops) for i in range(nscripts) for n in names]
    parts = [lines[i::8] for i in range(8)]
    def one(i):
        p = parts[i]
        rc, out, err = chk.run_driver(exe, input="\n".join(p) + "\n", timeout=300)
        evs = vp.parse_events(out)
        if "#done" not in out and not (evs and evs[-1]["e"] == "crash"):
            if rc == 3: raise vp.ModelFailure("driver: " + err[-500:])
            evs.append({"e": "crash", "rc": rc})
        if not evs: raise vp.ModelFailure("driver produced nothing: %s" % err[-500:])
        return evs, chk.validate("TraceMarray", evs, name="trace%d" % i, quiet=True, mem="3g")
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(one, [i for i in range(8) if parts[i]]))
    nev = 0
    for evs, bad in res:
        nev += len(evs)
        if bad is not None:
            s = max([i for i in range(bad + 1) if evs[i]["e"] == "reset"] or [0])
            raise vp.Violation("event %s is not allowed by the array specification" % str(evs[bad])[:700],
                               dict(type=evs[s].get("ty"), before=evs[max(s, bad - 12):bad], rejected=evs[bad]))
    chk.cov["traces_validated_against_impl"] += len(lines)
    ops = sum(1 for evs, _ in res for e in evs if e["e"] == "op")
    faults = sum(1 for evs, _ in res for e in evs if e.get("r") == "fault")
    refused = sum(1 for evs, _ in res for e in evs if e.get("r") == "refused")
    chk.log("histories=%d operations=%d injected failures=%d refused=%d events=%d" % (len(lines), ops, faults, refused, nev))
    chk.notes.update(histories=len(lines), operations=ops, injected_failures=faults, refused_operations=refused, events_validated=nev)
    for x in lines[:3]: chk.sample(x)
    chk.assumptions += ["arguments respect the preconditions the code states with assert() (axis < rank, positions inside the extent)",
                        "arrays in the histories hold at most 64 elements; ranks 1 to 4"]


def M01(chk):
    array_check(chk, [n for n in TYPES if n[:3] in ("int", "dbl", "str")] + ["nm1", "nm2", "cp3", "nm4"], "edits", 80 if chk.thorough else 20, 60)


def M02(chk):
    array_check(chk, [n for n in TYPES if TYPES[n][5]] + ["str2", "dbl2"], "moves", 60 if chk.thorough else 14, 50)


def M04(chk):
    array_check(chk, [n for n in TYPES if TYPES[n][5]], "faults", 40 if chk.thorough else 9, 30)


def M03(chk):
    for r in "123": chk.model_check("MC_Marray", "MC_Marray_%s.cfg" % r, workers=8)
    exe = chk.compile("arith", [os.path.join(vp.HARN, "arith_%s.cpp" % x) for x in ("main", "t1", "t2", "t3")])
    rounds = 16 if chk.thorough else 3
    seeds = [chk.rng.randint(1, 10**9) for _ in range(8)]
    def one(i):
        rc, out, err = chk.run_driver(exe, [seeds[i], rounds], timeout=300)
        evs = vp.parse_events(out)
        if "#done" not in out and not (evs and evs[-1]["e"] == "crash"): evs.append({"e": "crash", "rc": rc})
        return evs, chk.validate("TraceArith", evs, name="trace%d" % i, quiet=True, mem="3g")
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(one, range(8)))
    for i, (evs, bad) in enumerate(res):
        if bad is not None:
            raise vp.Violation("call %s is not allowed by the array specification" % str({k: evs[bad].get(k) for k in ("e", "op", "k", "x", "y", "r", "z", "x2", "y2", "inpl", "dim")})[:900],
                               dict(seed=seeds[i], rejected=evs[bad]))
    n = sum(len(e) for e, _ in res)
    chk.cov["traces_validated_against_impl"] += n
    chk.notes.update(calls=n, refused=sum(1 for e, _ in res for x in e if x.get("r") == "refused"),
                     shape_pairs=len({(tuple(x["x"]["sh"]), tuple(x["y"]["sh"])) for e, _ in res for x in e if "x" in x}))
    chk.log("calls=%d" % n, chk.notes)
    for x in res[0][0][:3]: chk.sample(x)
    chk.assumptions += ["compound assignment between arrays is called with operands of one shape (asserted precondition)",
                        "floating-point elements are compared bit by bit with the scalar operation; integer elements are computed by the specification"]


def aligned_script(rng, nops):
    """Random histories of aligned allocations; the address the system returns is steered to every residue class."""
    sizes = [1, 3, 4, 8, 24, 5000]
    ops, live, nid, big = ["reset"], [], 0, 0
    for _ in range(nops):
        k = rng.random()
        if k < .55 or not live:
            ty = rng.randrange(6)
            pw = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13]) if rng.random() < .93 else rng.choice([16, 20, 24, 27, 30, 31])
            if pw >= 27:
                big += 1
                if big > 2: pw = 11
            f, n = 0, rng.choice([0, 1, 2, 3, 7, 8, 16, 33, 100])
            x = rng.random()
            top = 2 ** 64
            if x < .05: n = top // sizes[ty] - rng.choice([0, 1, 2, 2 ** pw // sizes[ty], 2 ** pw])
            elif x < .10: n = min(top - 1, top // sizes[ty] + rng.choice([0, 1, 2, 5, 2 ** 20]))
            elif x < .12: n = top - 1 - rng.randrange(4)
            elif x < .17: f = 1
            n = max(0, min(n, top - 1))
            m = 2 ** min(rng.choice([pw, pw + 1, 4]), 14)
            r = rng.choice([0, 1, m - 1, m // 2, rng.randrange(m)]) % m
            ops.append("alloc %d %d %d %d %d %d %d %d" % (nid, ty, pw, rng.randrange(4), n, m, r, f))
            if n < 1000: live.append(nid)
            nid += 1
        elif k < .9:
            ops.append("free %d %d" % (live.pop(rng.randrange(len(live))), rng.randrange(3)))
        elif k < .94: ops.append("cmp %d %d" % (rng.randrange(32), rng.randrange(32)))
        elif k < .96: ops.append("null")
        else: ops.append("marr %d %d" % (rng.choice([3, 4, 5, 6, 7, 8, 9, 11]), rng.randrange(1000)))
    return "\n".join(ops)


def M05(chk):
    chk.model_check("AlignedAlloc", workers=8)
    exe = chk.compile("aligned", [os.path.join(vp.HARN, "aligned_driver.cpp")])
    hist = [aligned_script(chk.rng, 60) for _ in range(200 if chk.thorough else 40)]
    def one(i):
        rc, out, err = chk.run_driver(exe, input="\n".join(hist[i::8]) + "\n", timeout=300)
        if rc == 3: raise vp.ModelFailure(err[-300:])
        evs = vp.parse_events(out)
        if "#done" not in out and not (evs and evs[-1]["e"] == "crash"): evs.append({"e": "crash", "rc": rc})
        return evs, chk.validate("TraceAligned", evs, name="trace%d" % i, quiet=True, mem="3g")
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(one, range(8)))
    for evs, bad in res:
        if bad is not None:
            raise vp.Violation("event %s is not allowed by the aligned-allocation specification" % str(evs[bad])[:300],
                               dict(before=evs[max(0, bad - 8):bad], rejected=evs[bad]))
    allocs = [e for evs, _ in res for e in evs if e["e"] == "call"]
    chk.cov["traces_validated_against_impl"] += len(hist)
    chk.notes.update(histories=len(hist), allocations=len(allocs), alignments=sorted({e["pow"] for e in allocs}),
                     refused=sum(1 for evs, _ in res for e in evs if e["e"] == "refused"))
    for h in hist[:2]: chk.sample(h[:300])
    chk.assumptions += ["operator new[] is replaced by an arena that chooses the address; sizes above 6 GB are refused by that system allocator"]
