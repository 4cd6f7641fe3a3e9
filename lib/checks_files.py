"""F01-F04: text tables, HDF5 helpers and wrappers, resource lookup (tools.h, tools.cpp, resources.cpp)."""
import os, shutil, subprocess, struct
import vp
from checks_num import hx, hs
import checks_num as cn
from concurrent.futures import ThreadPoolExecutor

LIBS = ["-lhdf5_hl", "-lhdf5", "-lgsl", "-lgslcblas", "-lm"]


def text_driver(chk):
    return chk.compile("text", [os.path.join(vp.HARN, "text_driver.cpp"), os.path.join(vp.REPO, "src/tools.cpp"), os.path.join(vp.REPO, "src/resources.cpp")],
                       libs=LIBS, flags=["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"], opt="-O2")


def run_text(chk, exe, name, cmds, env=None):
    d = chk.path("scratch_" + name)
    os.makedirs(os.path.join(d, "sub"), exist_ok=True)
    try: rc, out, err = chk.run_driver(exe, args=[d], input="\n".join(c for c, _ in cmds) + "\n", timeout=150, env=env)
    finally: shutil.rmtree(d, ignore_errors=True)
    got = vp.parse_events(out)
    evs = []
    for i, (c, e) in enumerate(cmds):
        ev = dict(e); ev.update(got[i] if i < len(got) else {"r": "crash"}); evs.append(ev)
        if ev["r"] not in ("ok", "refused", "none"): break
    if len(evs) == len(cmds) and "#done" not in out: evs.append(dict(e="end", r="crash"))
    return evs


def judge(chk, module, runs, what):
    """runs: list of (events, commands)."""
    def one(ir):
        i, (evs, cmds) = ir
        return chk.validate(module, evs, name="t%d" % i, quiet=True, mem="3g")
    if os.environ.get("VP_TIMES"):
        import time
        def timed(ir):
            t = time.time(); r = one(ir); chk.log("trace %d: %.1f s, %d events" % (ir[0], time.time() - t, len(ir[1][0]))); return r
    else: timed = one
    with ThreadPoolExecutor(6) as ex: res = list(ex.map(timed, list(enumerate(runs))))
    for k, ((evs, cmds), bad) in enumerate(zip(runs, res)):
        chk.cov["traces_validated_against_impl"] += 1
        chk.notes["events"] = chk.notes.get("events", 0) + len(evs)
        if bad is not None:
            raise vp.Violation("%s: recorded behaviour is not what the specification allows" % what,
                               dict(event=evs[bad], trace=k, index=bad, commands=[c for c, _ in cmds][max(0, bad - 6):bad + 1], previous=evs[max(0, bad - 3):bad]))
        for e in evs:
            if e.get("e") not in ("put", "write") and len(str(e)) < 200: chk.sample(e); break


NAMES = ["a", "b", "c", "d"]


def number(rng):
    r = rng.random()
    if r < .25: return str(rng.randint(-1000, 1000))
    if r < .5: return repr(rng.uniform(-10, 10))
    if r < .7: return "%.*e" % (rng.randint(0, 20), rng.uniform(-1, 1) * 10 ** rng.randint(-30, 30))
    if r < .8: return "%.*E" % (rng.randint(0, 16), rng.uniform(1, 10) * 10 ** rng.randint(-290, 290))
    if r < .9: return rng.choice(["0", "0.0", "-0", ".5", "-.25", "5.", "1e5", "1E+05", "1e-05", "+3", "007", "0.1", "123456789012345678", "1e300", "2.2250738585072014e-308"])
    return "%.17g" % rng.gauss(0, 1)


def value(rng):
    r = rng.random()
    if r < .3: return float(rng.randint(-10**6, 10**6))
    if r < .6: return rng.gauss(0, 1)
    if r < .8: return rng.uniform(-1, 1) * 10 ** rng.randint(-290, 290)
    return rng.choice([0.0, 1.0, -1.0, .1, 1 / 3.0, 1e15, 123456789012345.67, 999999999999999.9, 9.999999999999995, 1e-300, -1e300, float(2**53 - 1)])


def F01(chk):
    chk.model_check("MC_Text", workers=8)
    rng = chk.rng
    exe = text_driver(chk)
    def put(n, lines):  # lines: lists of decimal tokens
        def ws(): return rng.choice([" ", " ", "  ", "\t", " \t ", "     "])
        o = ""
        eol = rng.choice(["\n", "\n", "\r\n"])
        for r in lines:
            o += rng.choice(["", "", " ", "\t"]) + "".join(t + (ws() if i < len(r) - 1 else rng.choice(["", " ", "\t "])) for i, t in enumerate(r)) + eol
        if lines and lines[-1] and rng.random() < .3: o = o[:-len(eol)]
        return ("put %s x%s" % (n, o.encode().hex()), dict(e="put", n=n, lines=lines))
    def table(ragged=False):
        r, c = rng.choice([0, 1, 1, 2, 3, 5, 8]), rng.choice([1, 1, 2, 3, 4, 7, 13])
        t = [[number(rng) for _ in range(c)] for _ in range(r)]
        if ragged and r > 1:
            i = rng.randrange(r)
            if rng.random() < .5 and c > 1: t[i] = t[i][:-1]
            else: t[i] = t[i] + [number(rng)] * rng.choice([1, 1, c])
        o = []
        for row in t:
            while rng.random() < .2: o.append([])
            o.append(row)
        while rng.random() < .25: o.append([])
        return o
    runs = []
    for b in range(60 if chk.thorough else 12):
        cmds = []
        for step in range(60):
            n = rng.choice(NAMES); r = rng.random()
            if r < .3: cmds.append(put(n, table(rng.random() < .3))); cmds.append(("read " + n, dict(e="read", n=n)))
            elif r < .62:
                bad = rng.random() < .12
                m = "nodir/" + n if bad else n
                rows, cols = rng.choice([1, 1, 2, 3, 6, 12, 33]), rng.choice([1, 1, 2, 3, 5, 12, 17])
                if rng.random() < .08: rows, cols = rng.choice([(0, 0), (0, 3), (2, 0), (40, 25)])
                t = [[value(rng) for _ in range(cols)] for _ in range(rows)]
                cmds.append(("write %s %d %d %s" % (m, rows, cols, hs([x for q in t for x in q])), dict(e="write", n=m, rows=[[hx(x) for x in q] for q in t])))
                if not bad:
                    cmds.append(("read " + n, dict(e="read", n=n)))
                    if rng.random() < .4: cmds.append(("raw " + n, dict(e="raw", n=n)))
                    if rng.random() < .4:   # another program appends or re-indents: read, write it back, read again
                        cmds.append(("read " + n, dict(e="read", n=n)))
            elif r < .85: cmds.append(("read " + n, dict(e="read", n=n)))
            elif r < .9: cmds.append(("read nodir/" + n, dict(e="read", n="nodir/" + n)))
            else: cmds.append(("rm " + n, dict(e="rm", n=n)))
        runs.append((run_text(chk, exe, "%d" % b, cmds), cmds))
    judge(chk, "TraceText", runs, "text table")
    chk.assumptions += ["finite values of normal magnitude (below 1e307)", "decimal text is read as the nearest double"]


def F04(chk):
    chk.model_check("MC_Text", workers=8)
    rng = chk.rng
    exe = text_driver(chk)
    # the installed variant: the installation rule rewrites one byte of the built binary
    raw = open(exe, "rb").read()
    a, z = b"NUSQUIDS_DATA_PATH_INSTALL_FLAG_PREFIX_", b"_NUSQUIDS_DATA_PATH_INSTALL_FLAG_SUFFIX"
    if raw.count(a + b"A" + z) < 1: raise vp.ModelFailure("the install flag is not in the binary")
    inst = exe + "_installed"
    with open(inst, "wb") as f: f.write(raw.replace(a + b"A" + z, a + b"B" + z))
    os.chmod(inst, 0o755)
    src, ins = vp.REPO + "/data/", "/usr/local/share/nuSQuIDS/"
    runs = []
    for b in range(40 if chk.thorough else 14):
        installed = b % 2 == 1
        env0 = rng.choice([None, "", "/opt/data", "relative dir/x"])
        cmds = [("unsetenv", dict(e="unsetenv"))] if env0 is None else [("res", None)]
        def res(): return ("res", dict(e="res", installed=installed, inst=ins, src=src))
        cmds = []
        start = [] if env0 is None else [dict(e="setenv", v=env0, r="ok")]
        for step in range(60):
            r = rng.random(); n = rng.choice(NAMES)
            if r < .2:
                v = rng.choice(["", "/", "/data", "./x/", "a b", "/very/long/" + "p" * rng.randint(1, 300), src, ins])
                cmds.append(("setenv x" + v.encode().hex(), dict(e="setenv", v=v)))
            elif r < .3: cmds.append(("unsetenv", dict(e="unsetenv")))
            elif r < .6: cmds.append(res())
            elif r < .7: cmds.append(("put %s x%s" % (n, rng.choice(["", "310a"])), None)); cmds[-1] = (cmds[-1][0], dict(e="put", n=n, lines=[["1"]] if cmds[-1][0].endswith("310a") else []))
            elif r < .8: cmds.append(("rm " + n, dict(e="rm", n=n)))
            else:
                m = rng.choice([n, n, n, "nodir/" + n, n + "x"]); cmds.append(("exists " + m, dict(e="exists", n=m)))
        env = {} if env0 is None else dict(NUSQUIDS_DATA_PATH=env0)
        if env0 is None and "NUSQUIDS_DATA_PATH" in os.environ: del os.environ["NUSQUIDS_DATA_PATH"]
        evs = run_text(chk, inst if installed else exe, "%d" % b, cmds, env=env)
        runs.append((start + evs, ([("environment at start", None)] if start else []) + cmds))
    judge(chk, "TraceText", runs, "resource path or file existence")


# ------------------------------------------------------------------------------------------------ F02, F03
def h5_driver(chk):
    return chk.compile("h5", [os.path.join(vp.HARN, "h5_driver.cpp"), os.path.join(vp.REPO, "src/tools.cpp")], libs=LIBS,
                       flags=["-fsanitize=address"], opt="-O1")


def x(s): return "x" + s.encode().hex()


TYPES = ["int", "uint", "float", "double"]
TOP = ["a", "b", "c \u00e9", "energies"]
GROUPS = ["g", "h i", "g/k"]
PATHS = TOP + GROUPS + ["g/a", "g/b", "h i/a", "g/k/z", "nog/a", "a/b", "l1", "g/l2"]
def parent(p): return p.rsplit("/", 1)[0] if "/" in p else "/"


def h5_history(rng, steps, failing=.25):
    cmds, objs, attrs = [], {}, {}
    for f in ("f1", "f2"):
        cmds.append(("create " + f, dict(e="create", f=f))); objs[f, "/"] = ("group",)
    def how(): return rng.randint(0, 1)
    def can_add(f, p): return (f, p) not in objs and objs.get((f, parent(p)), ("",))[0] == "group"
    def val(src, dst):
        u = "uint" in (src, dst); i = u or "int" in (src, dst)
        if i:
            m = rng.choice([3, 200, 2**24 - 1] if "float" in (src, dst) else [3, 1000, 2**31 - 1] + ([2**32 - 1] if src == dst == "uint" else []))
            v = float(rng.choice([rng.randint(0 if u else -m, m), m, 0 if u else -m, 0]))
            return v
        if src == "float": return struct.unpack("f", struct.pack("f", rng.gauss(0, 1) * 10 ** rng.randint(-20, 20)))[0]
        if dst == "float": return rng.gauss(0, 1) * 10 ** rng.randint(-20, 20)
        return rng.choice([rng.gauss(0, 1), rng.uniform(-1, 1) * 10 ** rng.randint(-300, 300), 0.0, .1, 1 / 3.0])
    for _ in range(steps):
        f = rng.choice(["f1", "f1", "f2"]); r = rng.random(); bad = rng.random() < failing
        if r < .03: cmds.append(("reopen " + f, dict(e="reopen", f=f)))
        elif r < .045:
            cmds.append(("create " + f, dict(e="create", f=f)))
            for d in (objs, attrs):
                for k in [k for k in d if k[0] == f]: del d[k]
            objs[f, "/"] = ("group",)
        elif r < .1:
            p = rng.choice(GROUPS + ["l1", "g/l2"]); op = "link" if "l" in p.split("/")[-1] else "group"
            if can_add(f, p):
                objs[f, p] = (op,); cmds.append(("%s %s %s %d" % (op, f, x(p), how()), dict(e=op, f=f, p=p, par=parent(p))))
        elif r < .38:
            c = [p for p in PATHS if can_add(f, p) and p not in GROUPS and "l" not in p.split("/")[-1][:1]]
            p = rng.choice(PATHS) if bad or not c else rng.choice(c)
            src, dst = rng.choice(TYPES), rng.choice(TYPES)
            if rng.random() < .4: dst = src
            rank = rng.choice([1, 1, 2, 2, 3, 4]); big = rng.random() < .1
            if big: dims = {1: [rng.choice([401, 8192, 20000, 70000])], 2: rng.choice([[3, 9000], [200, 300], [9000, 2]]), 3: rng.choice([[5, 40, 100], [2, 3, 6000], [50, 50, 8]]), 4: rng.choice([[3, 4, 10, 100], [2, 2, 2, 9000]])}[rank]
            else: dims = [rng.choice([0, 1, 1, 2, 3, 4, 5]) if rng.random() < .3 else rng.choice([1, 2, 3, 4]) for _ in range(rank)]
            if not big and rank == 1 and rng.random() < .3: dims = [rng.choice([7, 30, 100])]
            comp = rng.choice([0, 0, 1, 4, 6, 9])
            n = 1
            for d in dims: n *= d
            e = dict(e="write", f=f, p=p, par=parent(p), dst=dst, dims=dims, big=big)
            if big: data = str(rng.randint(1, 10**9))
            else: v = [hx(val(src, dst)) for _ in range(n)]; data = " ".join(v); e["data"] = v
            cmds.append(("write %s %s %d %s %s %d %d %s %d %s" % (f, x(p), how(), src, dst, comp, rank, " ".join(map(str, dims)), big, data), e))
            if can_add(f, p):
                objs[f, p] = ("data", rank, dst, n, dims, [float.fromhex(t) for t in v] if not big else None)
                if rng.random() < .6: cmds.append(read_cmd(rng, f, p, objs, how))
        elif r < .62:
            have = [k for k in objs if objs[k][0] == "data" and k[0] == f]
            if have and not bad: cmds.append(read_cmd(rng, f, rng.choice(have)[1], objs, how))
            elif bad:
                p = rng.choice(PATHS); rank = rng.randint(1, 4)
                if (f, p) in objs and objs[f, p][0] == "data" and objs[f, p][1] == rank: rank = rank % 4 + 1
                cmds.append(("read %s %s %d %s %d 0" % (f, x(p), how(), rng.choice(TYPES), rank), dict(e="read", f=f, p=p, rank=rank, t="int")))
            if rng.random() < .3:
                if have and rng.random() < .7:
                    k = rng.choice(have)
                    if objs[k][3]: cmds.append(("readfail %s %s %d %s %d 1" % (f, x(k[1]), how(), rng.choice(TYPES), objs[k][1]), dict(e="readfail", f=f, p=k[1])))
                else: cmds.append(("readfail %s %s 0 double 1 0" % (f, x("a")), dict(e="readfail", f=f, p="a")))
        elif r < .72:
            p = rng.choice(PATHS); cmds.append(("exists %s %s %d" % (f, x(p), how()), dict(e="exists", f=f, p=p)))
        else:
            have = [k for k in objs if objs[k][0] in ("data", "group") and k[0] == f]
            o = rng.choice(have)[1]; a = rng.choice(["n", "name", "x y", "v"]); t = rng.choice(TYPES + ["string", "string"])
            if rng.random() < .5:
                if t == "string": v = "".join(rng.choice("ab c/\n\u00e9\t0") for _ in range(rng.choice([0, 0, 1, 1, 2, 7, 40]))); txt = x(v); ev = "x" + v.encode().hex()
                else: ev = txt = hx(val(t, t))
                cmds.append(("wattr %s %s %s %s %s" % (f, x(o), x(a), t, txt), dict(e="wattr", f=f, p=o, a=a, t=t, v=ev)))
                attrs.setdefault((f, o, a), t)
                if rng.random() < .5: cmds.append(("rattr %s %s %s %s" % (f, x(o), x(a), t), dict(e="rattr", f=f, p=o, a=a, t=t)))
            else:
                have = [k for k in attrs if k[0] == f]
                if have and not bad: k = rng.choice(have); o, a, t = k[1], k[2], attrs[k]
                cmds.append(("rattr %s %s %s %s" % (f, x(o), x(a), t), dict(e="rattr", f=f, p=o, a=a, t=t)))
    return cmds


def read_cmd(rng, f, p, objs, how):
    _, rank, st, n, dims, vals = objs[f, p]
    # destination types that hold every stored value
    ts = [st]
    if vals is None: ts += ["double", "float"] + (["int"] if st in ("int", "uint") else [])
    elif all(v == int(v) and abs(v) < 2**24 for v in vals): ts += ["double", "float", "int"] + (["uint"] if all(v >= 0 for v in vals) else [])
    elif st == "float": ts += ["double"]
    elif all(v == 0 or 1e-30 < abs(v) < 1e30 for v in vals): ts += ["float", "double"]
    t = rng.choice(ts)
    return ("read %s %s %d %s %d 0" % (f, x(p), how(), t, rank), dict(e="read", f=f, p=p, rank=rank, t=t))


def h5_runs(chk, n, steps, failing):
    exe = h5_driver(chk); todo = [(i, h5_history(chk.rng, steps, failing)) for i in range(n)]
    with ThreadPoolExecutor(6) as ex: return list(ex.map(lambda t: (run_text(chk, exe, "%d" % t[0], t[1]), t[1]), todo)), exe


def F02(chk):
    chk.model_check("MC_H5", workers=8)
    runs, _ = h5_runs(chk, 60 if chk.thorough else 14, 130, .2)
    judge(chk, "TraceH5", runs, "HDF5 helper")
    chk.assumptions += ["the HDF5 library itself is correct", "stored values are representable in the types involved, up to rounding to single precision", "text attributes without NUL characters"]


def F03(chk):
    chk.model_check("MC_H5", workers=8); chk.model_check("MC_Handles", workers=8)
    rng = chk.rng
    runs, exe = h5_runs(chk, 40 if chk.thorough else 10, 120, .5)
    with ThreadPoolExecutor(6) as ex:
        res = list(ex.map(lambda ir: chk.validate("TraceH5", ir[1][0], cfg="TraceH5_ledger.cfg", name="l%d" % ir[0], quiet=True, mem="3g"), list(enumerate(runs))))
    for k, ((evs, cmds), bad) in enumerate(zip(runs, res)):
        chk.cov["traces_validated_against_impl"] += 1; chk.notes["events"] = chk.notes.get("events", 0) + len(evs)
        if bad is not None: raise vp.Violation("HDF5 helper: a call left objects open, closed too many, or ended differently than specified",
                                               dict(event=evs[bad], trace=k, index=bad, commands=[c for c, _ in cmds][max(0, bad - 3):bad + 1], kinds="ids: left open: dataspace, datatype, property list, group, dataset, attribute; extra references to the file"))
    hr = []
    for i in range(120 if chk.thorough else 24):
        kind = ["handle", "file"][i % 2]; cmds = []; own = {s: -2 for s in (1, 2, 3, 4)}; nid = 0
        def add(e, s, d, i=0): cmds.append(("%s %s %d %d %d" % (e, kind, s, d, i), dict(e=e, s=s, d=d, id=i)))
        for _ in range(70):
            s, d = rng.randint(1, 4), rng.randint(1, 4); r = rng.random()
            if own[d] == -2 and r < .3 and nid < 78: nid += 1; own[d] = nid; add("new", s, d, nid)
            elif own[d] == -2 and r < .45: own[d] = -1; add("empty", s, d)
            elif own[d] == -2 and own[s] != -2 and s != d and r < .8: own[d] = own[s]; own[s] = -1; add("mc", s, d)
            elif own[d] != -2 and own[s] != -2 and r < .75: own[s], own[d] = (own[d], own[s]); add("ma", s, d)
            elif own[d] != -2 and r < .95: own[d] = -2; add("del", s, d)
            elif kind == "handle": add("bad", s, d, rng.randint(0, 5))
        for d in (1, 2, 3, 4):
            if own[d] != -2: add("del", d, d)
        hr.append((run_text(chk, exe, "h%d" % i, cmds), cmds))
    judge(chk, "TraceHandles", hr, "HDF5 wrapper")
    chk.assumptions += ["the HDF5 library's own table of identifiers is correct", "a failed allocation of the array being read stands for every failure after the dataset was opened"]
