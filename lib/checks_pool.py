"""P01, P02: the task pool (ThreadPool.h) against spec/Pool.tla and spec/PoolAPI.tla."""
import os
from concurrent.futures import ThreadPoolExecutor
import vp

SRC = [os.path.join(vp.HARN, "ctlsched.cpp"), os.path.join(vp.HARN, "pool_driver.cpp")]

# operations: E<id><kind> submit a task, W<id> wait for and fetch a result, Y yield.
# kinds: p value, v void, s string argument by value, u move-only result, t throws, y<k> yields k times,
# n<child> submits a child, l<child> waits until the destructor is joining and then submits a child,
# b<g>x<m> waits inside its body until m tasks of group g have started.
FIXED = {
 "P01": ["1|E1p,E2t,E3v,W2,W1", "2|E1p,E2t,W1|E3n4,E5u,W5", "3|E1s,E2u,E3v,E4t,E5p,W4,W1", "1|E1n2,W1,E3t,W3",
         "2|E1t,E2t,E3p,W3", "2|E1y3,W1,W1|E2y2,W2|E3t,W3", "4|E1p,E2p", "1|E1n2,E3n4,E5n6"],
 "P02": ["1|E1p,E2p,E3p,E4p", "2|E1b1x2,E2b1x2,E3p", "3|E1b1x3,E2b1x3,E3b1x3", "2|Y,E1b1x2,Y,E2b1x2|E3p", "1|E1l2", "2|E1l2,E3p,E4l5",
         "3|E1p", "3|", "1|", "2|E1b1x2,E2b1x2,W1,E3b2x2,E4b2x2,W3", "1|E1y4,E2p,E3t,E4v", "2|E1n2,E3l4,E5t", "4|E1b1x4,E2b1x4,E3b1x4,E4b1x4",
         "3|E1p,W1,Y,E2p,W2,Y,E3b1x3,E4b1x3,E5b1x3"],
}


def random_program(rng, emphasis):
    n = rng.choice([1, 1, 2, 2, 3, 4])
    nid = [0]
    def new():
        nid[0] += 1
        return nid[0]
    progs = []
    clients = rng.choice([0, 0, 1, 1, 2])
    group = 0
    for c in range(clients + 1):
        ops, mine = [], []
        for _ in range(rng.randint(0 if c else 1, 4 if clients else 6)):
            if nid[0] >= 13: break
            r = rng.random()
            if r < 0.2 and mine:
                ops.append("W%d" % rng.choice(mine)); continue
            if r < 0.27:
                ops.append("Y"); continue
            if c == 0 and n >= 2 and rng.random() < (0.35 if emphasis == "P02" else 0.1) and nid[0] + n <= 13:
                m = rng.randint(2, n); group += 1
                for _ in range(m):
                    i = new(); mine.append(i); ops.append("E%db%dx%d" % (i, group, m))
                continue
            i = new()
            k = rng.choice("pvsutyn" + ("l" if emphasis == "P02" else "tn"))
            if k == "y": ops.append("E%dy%d" % (i, rng.randint(1, 4))); mine.append(i)
            elif k == "n": j = new(); ops.append("E%dn%d" % (i, j)); mine.append(i)
            elif k == "l":
                # never waited for by a client: it finishes only once the destructor is joining.  Tasks behind it
                # must not be waited for either, nor be needed by a barrier, so it ends its program.
                if c == 0 and clients == 0:
                    j = new(); ops.append("E%dl%d" % (i, j))
                    if rng.random() < .5: ops.append("E%dp" % new())
                    break
                ops.append("E%dp" % i); mine.append(i)
            else: ops.append("E%d%s" % (i, k)); mine.append(i)
        progs.append(",".join(ops))
    return "%d|%s" % (n, "|".join(progs))


def scenarios(chk):
    rng = chk.rng
    progs = list(FIXED[chk.pid])
    for _ in range(120 if chk.thorough else 40): progs.append(random_program(rng, chk.pid))
    lines = []
    for i, p in enumerate(progs):
        lines.append("rand %d %d %s" % (240 if chk.thorough else 60, rng.randint(1, 10**6), p))
        if i < len(FIXED[chk.pid]):
            # systematic: preemption bound 1 or 2, without and with one spurious wake-up
            lines.append("dfs %d %d %s" % (6000 if chk.thorough else 500, 20, p))
            lines.append("dfs %d %d %s" % (6000 if chk.thorough else 500, 11, p))
    return lines


def execute(chk, exe, lines):
    parts = [lines[i::8] for i in range(8)]
    def one(p): return chk.run_driver(exe, input="\n".join(p) + "\n", timeout=700)
    events, runs, exhausted = [], 0, 0
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(one, [p for p in parts if p]))
    for rc, out, err in res:
        evs = vp.parse_events(out)
        stat = [x for x in out.split("\n") if x.startswith("#stat")]
        exhausted += out.count("#exhausted")
        if stat: runs += int(stat[-1].split("runs=")[1].split()[0])
        if not stat and rc != 0: evs.append({"e": "crash", "rc": rc})
        elif not stat: raise vp.ModelFailure("driver ended without a summary: rc=%s %s" % (rc, err[-500:]))
        events += evs
        # an abnormal end cuts an execution short; the next part starts with its own reset
        if events and events[-1]["e"] in ("crash", "deadlock", "livelock", "hang"): break
    events.append({"e": "eof"})
    return events, runs, exhausted


def pool_check(chk):
    for cfg in (["MC_Pool_nested.cfg"] if chk.pid == "P01" else ["MC_Pool_nested.cfg", "MC_Pool_barrier.cfg"]):
        chk.model_check("MC_Pool", cfg, workers=8)
    if chk.thorough:
        chk.model_check("MC_Pool", "MC_Pool_three.cfg", workers=8)
        chk.model_check("MC_Pool", "MC_Pool_clients.cfg", workers=8)
    exe = chk.compile("pool", SRC, libs=["-ldl"])
    lines = scenarios(chk)
    events, runs, exhausted = execute(chk, exe, lines)
    nexec = sum(1 for e in events if e["e"] == "reset")
    chk.log("executions: %d schedules run, %d distinct traces, %d events, %d programs explored to their bound" % (runs, nexec, len(events), exhausted))
    bad = chk.validate("TracePool", events)
    if bad is not None:
        s = max(i for i in range(bad + 1) if events[i]["e"] == "reset")
        nxt = next((i for i in range(bad + 1, len(events)) if events[i]["e"] == "reset"), len(events))
        raise vp.Violation("event %r is not allowed by the pool specification" % (events[bad],),
                           dict(program=events[s].get("p"), execution=events[s:nxt], rejected_at=bad - s))
    chk.cov["traces_validated_against_impl"] += nexec
    chk.notes.update(schedules_executed=runs, events_validated=len(events), programs=len(set(x.split()[3] for x in lines if len(x.split()) > 3)),
                     programs_explored_to_bound=exhausted)
    rs = [i for i, e in enumerate(events) if e["e"] == "reset"]
    for i in rs[:3]: chk.sample(events[i:next((j for j in rs if j > i), len(events))])
    chk.assumptions += ["pthread mutexes, condition variables, thread creation and joins are the only synchronisation the pool uses (all are scheduling points); code between them is atomic",
                        "pools have at least one worker"]


P01 = pool_check
P02 = pool_check
