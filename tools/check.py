#!/usr/bin/env python3
"""check.py <property>: decides one property on /repo's current tree. See DESIGN.md."""
import sys
from vlib import *

N = lambda quick, thorough: thorough if THOROUGH else quick


def env(name, config, fams, *flags, fresh=1):
    return (name, config, (["--check", fams] if fams else []) + list(flags), fresh)


def C01(c):
    f = "canon,size"
    c.campaign("MC_C01", N(40, 600), 60, 6, [env("plain", "scan", f), env("gc", "tiny", f, "--gc"), env("long", "tiny", f, fresh=1000),
                                     env("loose", "scan", f, "--nohold")])
    wide(c, "W01", "canon,size")
    requests(c, "canon")


def C02(c):
    f = "nf,unique"
    c.campaign("MC_C02", N(30, 400), 60, 6, [env("plain", "scan", f + ",dunique,density"), env("tiny", "tiny", f, fresh=10), env("gc", "tiny", f, "--gc"), env("recycle", "scan", f, "--recycle", fresh=10)])
    wide(c, "W01", "nf,unique")
    requests(c, "nf,unique")


def wide(c, module, fams, *envs):
    """up to 128 qubits"""
    c.campaign("MC_" + module, N(20, 300), 30, 6, envs or [env("wide", "scan", fams), env("widegc", "scan", fams, "--gc"), env("widelong", "scan", fams, "--nohold", fresh=10)], src="wide")


def requests(c, fams, *flags):
    """nodes with weights of very different magnitude (spec/NodeRequests.tla)"""
    exe = c.build("nodereq.cpp", "nodereq")
    sims = [(t, f) for m, ts in (("MC_ReqV", ["vector"]), ("MC_ReqM", ["matrix", "density"])) for f in c.behaviours_of(m, N(20, 400), 80, 3) for t in ts]
    exe, todo = exe.result(), []
    for i, (t, f) in enumerate(sims):
        behs = f.result()
        c.count(behs)
        todo += [c.pool.submit(c.replay, exe, behs, "req-%s-%d%s" % (t, i, "".join(x)), ["--check", fams, "--table", t] + list(x)) for x in [list(flags), list(flags) + ["--gc"]]]
    c.sample([behs[0]])
    c.settle(todo)


def gate_records(c, recs, name):
    f = os.path.join(c.out, name + ".rec")
    with open(f, "w") as g:
        for r in recs:
            if r["k"] == "named":
                g.write("named %s %d" % (r["name"], len(r["w"])))
                for terms in r["w"]:
                    g.write(" %d" % len(terms))
                    for w, e in terms:
                        g.write(" %s %d %d %d" % (fmt(num(w)), *e))
                g.write("\n")
            else:
                g.write("%s %d %d" % (r["k"], r["n"], r["a"]))
                for v in (r["p"], r["c"], r["q"]):
                    g.write(" %d %s" % (len(v), " ".join(map(str, v))))
                g.write("\n")
    return f


def gates(c, which):
    exe = c.build("gates.cpp", "gates")
    jobs = {m: c.pool.submit(c.enumerate, "MC_G" + m, 600, 2) for m in (["named", which + "1", which + "2"] + ([which + "X"] if THOROUGH else []))}
    paths = c.behaviours_of("MC_Gpath", 1, N(60, 800), N(4, 6))
    names = [r for r in jobs.pop("named").result()]
    nm = gate_records(c, names, "named")
    exe = exe.result()
    todo = []
    mine = gate_records(c, [r for r in names if len(r["w"]) == (4 if which == "one" else 16)], "mine")
    todo.append(c.pool.submit(c.simple, exe, "named", ["--named", mine, "--what", "named", "--seed", str(SEED)]))
    for m, j in jobs.items():
        recs = j.result()
        c.behaviours += len(recs)
        c.exhaustive_parts.append("%s: all %d combinations of qubit count, targets, controls and start offset" % (m, len(recs)))
        c.sample([recs[len(recs) // 2:len(recs) // 2 + 1]])
        for i in range(4):
            f = gate_records(c, recs[i::4], "%s-%d" % (m, i))
            todo.append(c.pool.submit(c.simple, exe, "%s-%d" % (m, i), ["--named", nm, "--what", which, "--seed", str(SEED + i), "--random", str(N(12, 60)), f]))
    for i, p in enumerate(paths):
        recs = p.result()
        c.behaviours += len(recs)
        f = gate_records(c, recs, "path-%d" % i)
        todo.append(c.pool.submit(c.simple, exe, "path-%d" % i, ["--named", nm, "--what", "path1" if which == "one" else "path2", "--seed", str(SEED + i), "--random", "3", f]))
    c.settle(todo)


def C03(c):
    gates(c, "one")


def C04(c):
    gates(c, "two")


def C05(c):
    f = "value,operands"
    c.campaign("MC_C05", N(40, 600), 60, 5, [env("plain", "scan", f), env("tiny", "tiny", f), env("long", "scan", f, "--nohold", fresh=1000)])
    c.campaign("MC_C05w", N(6, 100), 24, 6, [env("plain", "scan", f)])
    wide(c, "W05", "value,operands")
    requests(c, "value")


def C06(c):
    f = "scalar"
    c.campaign("MC_C06", N(40, 600), 60, 6, [env("plain", "scan", f), env("tiny", "tiny", f, "--nohold"), env("long", "scan", f, fresh=1000)])
    wide(c, "W06", "scalar")


def C07(c):
    f = "value,read"
    c.campaign("MC_C07", N(40, 600), 60, 6, [env("plain", "scan", f), env("long", "tiny", f, fresh=1000)])
    wide(c, "W07", "value,read")


def C08(c):
    f = "value,scalar,density,read,roundtrip"
    c.campaign("MC_C08", N(30, 400), 80, 6, [
        env("long", "dens", f, fresh=100000), env("tiny", "tiny", f, "--twice", fresh=100000), env("recycle", "scan", f, "--recycle", fresh=100000),
        env("gc", "scan", f, "--gc", fresh=100), env("clear", "scan", f, "--clear", fresh=100), env("rescale", "scan", f, "--rescale", "--remember", fresh=100), env("gchalf", "scan", f, "--gc", "--half", "--twice", fresh=100)])
    # collections that find unused numbers but no unused node, between two requests that differ in such a number
    c.campaign("MC_C08t", N(30, 400), 80, 4, [env("rescale", "scan", f, "--rescale", "--remember", fresh=100)])
    # collections that find unused nodes but no unused number: permutations and basis states
    c.campaign("MC_C08v", N(40, 400), 90, 3, [env("nodegc", "scan", f, fresh=100)])
    c.campaign("MC_C08m", N(40, 400), 90, 3, [env("nodegc", "scan", f, fresh=100)])
    c.campaign("MC_C08g", N(30, 400), 90, 6, [env("nodegc", "scan", f, fresh=100), env("nodegctwice", "dens", f, "--twice", fresh=100)])
    wide(c, "W01", "value,scalar,read", env("wide", "scan", "value,scalar,read", "--twice", fresh=20), env("widegc", "scan", "value,scalar,read", "--gc", "--twice", fresh=20))


def nodes(c, numbers=False):
    n = N(60, 800)
    machine(c, [("MC_NodeVs", n, 70, 2, ["vnodes", "vnodes-8"]), ("MC_NodeMs", n, 70, 2, ["mnodes", "mnodes-8", "dnodes"]),
                ("MC_NodeVf", 0, 0, 0, [])]
            + ([("MC_Numbers", n, 80, 2, ["number-small", "complex"])] if numbers else [])
            + ([("MC_NodeVx", 0, 0, 0, ["vnodes"]), ("MC_NodeMx", 0, 0, 0, ["mnodes", "dnodes"])] if THOROUGH or not numbers else []))


def C09(c):
    f = "operands,alive,unique,report"
    c.campaign("MC_C09", N(40, 500), 80, 6, [env("gc", "scan", f, "--gc"), env("plain", "tiny", f), env("long", "scan", f, "--gc", fresh=100000)])
    c.campaign("MC_C09d", N(30, 300), 60, 2, [env("gc", "scan", f, "--gc"), env("half", "dens", f, "--half")])
    nodes(c)
    wide(c, "W10", "operands,alive,report,unique")


def C10(c):
    f = "refs,active"
    c.campaign("MC_C10", N(40, 500), 70, 6, [env("plain", "scan", f), env("gc", "tiny", f, "--gc"), env("twice", "scan", f, "--twice", fresh=100)])
    c.campaign("MC_C10q", N(30, 300), 50, 3, [env("consistent", "scan", "consistent")])
    nodes(c, numbers=True)
    wide(c, "W10", "refs")


def C12(c):
    f = "balance"
    c.campaign("MC_C12", N(40, 500), 70, 6, [env("plain", "scan", f), env("twice", "tiny", f, "--twice"), env("gc", "scan", f, "--gc", "--half", fresh=1000)])
    pools = ["pool", "pool-4", "pool-default", "pool-numbers"]
    machine(c, [("MC_Pools", N(150, 2000), 80, 2, pools), ("MC_Poolc", N(150, 2000), 80, 2, pools), ("MC_Poolx", 0, 0, 0, pools), ("MC_Poolf", 0, 0, 0, [])])
    wide(c, "W01", "balance")
    requests(c, "balance", "--twice")


def C13(c):
    f = "value,file,roundtrip"
    b = c.pool.submit(big, c, "MC_BigSer", f)
    c.campaign("MC_C13", N(40, 500), 60, 6, [env("plain", "scan", f), env("long", "tiny", f, "--nohold", fresh=1000)])
    wide(c, "W13", "value,file,roundtrip")
    c.settle([b])


def C14(c):
    f = "value,operands"
    b = c.pool.submit(big, c, "MC_BigTrans", f)
    c.campaign("MC_C14", N(40, 500), 60, 6, [env("plain", "scan", f), env("long", "tiny", f, "--gc", fresh=1000)])
    wide(c, "W13", "value,operands,transfer")
    c.settle([b])


def C15(c):
    f = "value,measure,refs"
    c.campaign("MC_C15", N(25, 400), 50, 6, [env("plain", "scan", f), env("gc", "tiny", f, "--gc")])
    wide(c, "W15", "value,measure,refs")


def C16(c):
    f = "density"
    c.campaign("MC_C16", N(60, 800), 40, 6, [env("plain", "dens", f), env("half", "dens", f, "--half"), env("gc", "tiny", f, "--gc", "--half", fresh=1000)])
    c.campaign("MC_C16b", N(8, 100), 9, 6, [env("plain", "dens", f), env("half", "dens", f, "--half")])
    c.campaign("MC_C16s", N(30, 400), 40, 6, [env("plain", "dens", f), env("gc", "tiny", f, "--gc", fresh=1000)])
    wide(c, "W16", f, env("wide", "dens", f), env("widegc", "tiny", f, "--gc"), env("widelong", "dens", f, "--nohold", fresh=10))


def C17(c):
    f = "value,refs"
    c.campaign("MC_C17", N(40, 500), 50, 6, [env("plain", "scan", f), env("gc", "tiny", f, "--gc"), env("long", "scan", f, fresh=1000)])
    wide(c, "W17", "value,refs")


def C18(c):
    f = "value,canon,scalar,density,read,roundtrip,measure,reset,active,operands,refs,balance"
    c.campaign("MC_C18", N(40, 500), 80, 6, [env("plain", "scan", f), env("loose", "tiny", f, "--nohold"), env("gc", "tiny", f, "--gc", "--half")])
    c.campaign("MC_C18r", N(40, 500), 120, 6, [env("resets", "scan", "value,scalar,density", fresh=1000), env("resetsd", "dens", "value,scalar,density", fresh=1000)])
    wide(c, "W01", "value,canon,operands,refs,grown")
    machine(c, [("MC_Numbers", N(60, 800), 80, 2, ["number-small", "complex"]), ("MC_NodeVs", N(30, 400), 70, 2, ["vnodes", "vnodes-8"])])


def machine(c, jobs):
    """jobs: (instance, behaviours per run, depth, runs, tables); instances ending in x/y are enumerated, in f only checked"""
    exe = c.build("tables.cpp", "tables")
    todo, started = [], []
    for module, num, depth, runs, tables in jobs:
        if runs == 0 and module[-1] == "f":
            todo.append(c.pool.submit(full, c, module))
        elif runs == 0:
            started.append((module, tables, [c.pool.submit(c.enumerate, module, 600, 2)], True))
        else:
            started.append((module, tables, c.behaviours_of(module, num, depth, runs), False))
    exe = exe.result()
    for module, tables, fs, all_ in started:
        for i, f in enumerate(fs):
            behs = f.result()
            c.count(behs)
            if i == 0:
                c.sample(behs[len(behs) // 2:], 1)
            if all_:
                c.exhaustive_parts.append("%s: all %d behaviours up to the instance's length" % (module, len(behs)))
            for t in tables:
                todo.append(c.pool.submit(c.replay, exe, behs, "%s-%s-%d" % (module, t, i), ["--table", t]))
    c.settle(todo)


def full(c, module):
    r, o = c.tlc(module, timeout=600, workers=2)
    if r != "ok":
        raise ToolError("an invariant of the specification %s is violated:\n%s" % (module, o[-3000:]))
    c.exhaustive_parts.append("%s: whole state space of the instance, invariants of the specification" % module)


def C11(c):
    small = ["number", "number-small", "number-129"]
    machine(c, [("MC_Numbers", N(120, 1500), 80, 6, small + ["complex"]), ("MC_Numberx", 0, 0, 0, small), ("MC_Numberf", 0, 0, 0, [])]
            + ([("MC_Numbery", 0, 0, 0, small + ["complex"])] if THOROUGH else []))


def C19(c):
    n = N(150, 2000)
    machine(c, [("MC_CacheBin", n, 120, 2, ["vadd", "madd", "mv", "mm", "vv"]), ("MC_CacheDens", n, 120, 2, ["dens", "dens-4"]),
                ("MC_CacheUn", n, 120, 2, ["unary", "unary-8"]), ("MC_CacheTof", n, 120, 2, ["toffoli", "toffoli-2048"]),
                ("MC_CacheStoch", n, 120, 2, ["stochastic"]), ("MC_CacheDNoise", n, 120, 2, ["dnoise", "dnoise-16"]), ("MC_Cachef", 0, 0, 0, [])])


def big(c, module, f):
    behs = c.enumerate(module)
    c.count(behs)
    c.exhaustive_parts.append(module + ": one diagram of more than 65000 nodes")
    c.replay(c.replayer("scan").result(), behs, module, ["--check", f])


def C20(c):
    f = "request,value,operands,balance,refs"
    c.campaign("MC_C20", N(60, 600), 60, 6, [env("plain", "scan", f), env("gc", "tiny", f, "--gc"), env("loose", "scan", f, "--nohold")])


def C21(c):
    exe = c.build("arith.cpp", "arith")
    sims = c.behaviours_of("MC_Arith", N(150, 2000), 100, 4)
    enums = {m: c.pool.submit(c.enumerate, m, 800, 2) for m in ("MC_Arithx", "MC_Print3", N("MC_Print1", "MC_Print1t"), N("MC_Print2", "MC_Print2t"))}
    exe = exe.result()
    todo = []
    for m, f in [("MC_Arith", s) for s in sims] + list(enums.items()):
        behs = f.result()
        c.count(behs)
        c.sample(behs, 1)
        if m in enums:
            c.exhaustive_parts.append("%s: all %d" % (m, len(behs)))
        for i in range(2 if m in enums else 1):
            todo.append(c.pool.submit(c.replay, exe, behs[i::2] if m in enums else behs, "%s-%d" % (m, len(todo)), []))
    c.settle(todo)


def C22(c):
    f = "export"
    c.settle([c.pool.submit(big, c, "MC_BigExport", f)])
    c.campaign("MC_C22", N(40, 500), 40, 6, [env("plain", "scan", f), env("long", "scan", f, "--nohold", fresh=1000)])


# ---------------------------------------------------------------------------------------------------- manifest texts
_R = ("Bounded: seeded random behaviours of the specification (TLC simulation), every one replayed on the real package built from the "
      "working tree; results compared with the exact values of the specification within 1e-9 relative. Nothing is claimed beyond the explored "
      "widths, operands and histories. Trusts TLC, g++, the harness's reading of diagrams. ")
_W = "Widths: up to 4 qubits with arbitrary functions (DDPackage.tla), up to 128 with sums of few product terms (Wide.tla). "
_N = "Nodes with weights of very different magnitude: NodeRequests.tla. "
_T = "TLA+ %s, behaviours generated and checked by TLC, replayed on the real package"
NOTES = {
    "C01": _R + _W + _N, "C02": _R + _W + _N, "C05": _R + _W + _N,
    "C06": _R + _W, "C07": _R + _W,
    "C08": _R + _W + "Histories: one package through up to a hundred behaviours, forced collection between operations, cleared tables, re-used memory, rescaled operands, client-side tables.",
    "C09": _R + _W + "Unique tables also alone (NodeStore.tla): short behaviours exhaustively, long ones at random.",
    "C10": _R + _W + "Unique tables and number table also alone with saturated counts (NodeStore.tla, NumberTable.tla).",
    "C11": _R + "Numbers are placed on bucket borders with offsets around the tolerance; three table shapes; all behaviours of the short instances, random long ones.",
    "C12": _R + _W + _N + "Pool of working numbers alone (WorkPool.tla): short behaviours exhaustively.",
    "C13": _R + _W, "C14": _R + _W,
    "C15": _R + _W + "Frequencies: outcomes of seeded generators against a bound with false-alarm probability below 1e-9.",
    "C16": _R + "Up to 4 qubits with arbitrary operators, up to 7 with operators that are sums of few product terms (Wide.tla); both storage modes.",
    "C17": _R + _W + "Garbage reduction only for monomial operators and basis states (the stated domain).",
    "C18": _R + _W + "Tables of numbers and nodes also alone, across resets and growth.",
    "C19": _R + "Each table class alone, keys chosen to collide; the invariant that a direct-mapped table refines the specification is checked over the whole state space of a small instance. Hits are not required.",
    "C20": _R + "Requests on and just beyond every stated limit, in the middle of histories; the file errors of the two readers.",
    "C21": _R + "Printing: all fractions within the bounds of the instance (denominators to 1024 sampled by the thorough tier's larger instance).",
    "C22": _R + "The drawn graph is read back independently and expanded; one diagram of more than 65000 nodes.",
}
TECHS = {
    "C01": _T % "specification of the package as a state machine over exact functions (DDPackage, Wide, NodeRequests)",
    "C02": _T % "specification of the package as a state machine over exact functions (DDPackage, Wide, NodeRequests)",
    "C09": _T % "specifications of the package (DDPackage, Wide) and of the node store (NodeStore)",
    "C10": _T % "specifications of the package (DDPackage, Wide), the node store (NodeStore) and the number table (NumberTable)",
    "C11": _T % "specification of the number table (NumberTable)",
    "C12": _T % "specifications of the package (DDPackage, Wide, NodeRequests) and of the pool of working numbers (WorkPool)",
    "C18": _T % "specifications of the package (DDPackage, Wide), the node store and the number table",
    "C19": _T % "specification of result tables (ResultCache)",
    "C20": _T % "specification of requests and verdicts (Requests, extending DDPackage)",
    "C21": _T % "specification of arithmetic on stored and working numbers (Arith) and of printed forms (Printing)",
}
for _i in ("C05", "C06", "C07", "C08", "C13", "C14", "C15", "C17"):
    TECHS[_i] = _T % "specifications of the package as a state machine over exact functions (DDPackage, Wide)"
TECHS["C16"] = _T % "specification of the package as a state machine over exact functions (DDPackage, Wide)"
TECHS["C22"] = _T % "specification of the package (DDPackage, BigVector)"


CHECKS = {k: v for k, v in globals().items() if re.fullmatch(r"C\d\d", k)}
if __name__ == "__main__":
    main(sys.argv[1], CHECKS[sys.argv[1]])
