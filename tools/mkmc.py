"""Writes spec/mc/MC_*.tla and .cfg: the instances of spec/DDPackage.tla the checks run. Output is committed."""
import os
D = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "mc")
BUILDV = "vbasis vstate vvec vunit"
BUILDM = "mmat mmat mperm mherm munit mid mgate mgate"
ARITH = "vadd vadd madd madd mv mv mv mm mm vkron mkron vkrons mkrons mext mtrans madj"
SCAL = "scal inner fid fidm expv trace ptrace isid"
MEM = "gc clear churn xref unxref"
MEAS = "probs meas meas measall"
RED = "manc mgarb vgarb minit"
EVERY = " ".join([BUILDV, "vzero", BUILDM, ARITH, ARITH, SCAL, "vdel mdel vser mser vtransfer mtransfer", RED, "probs meas", MEM])
I = {
    # name: kinds, widths, caps, NMax, NMaxM, KV, KM, depth
    "C01": (EVERY + " vprop vprop mprop mprop vuneven muneven", (1, 4), None, 5, 3, 3, 3, 60),
    "C02": (EVERY + " vprop mprop vuneven vuneven muneven muneven dinit dapply dapply dapplym", (1, 4), None, 4, 3, 3, 3, 60),
    "C05": (" ".join([BUILDV, BUILDM, "scal", ARITH, ARITH, ARITH]), (1, 3), None, 4, 3, 3, 3, 60),
    "C05w": (" ".join(["vbasis vstate vvec vunit mperm munit mgate mid", ARITH]), (3, 5), None, 6, 4, 2, 2, 24),
    "C06": (" ".join([BUILDV, "vunit vunit isid isid", BUILDM, "mid munit mperm", "vadd mv mm mtrans madj mkron"] + [SCAL] * 3), (1, 4), None, 4, 4, 3, 3, 60),
    "C07": (" ".join([BUILDV, "vshare vzero vstate", BUILDM, "mid vadd mv mm vkron mkron vkrons mkrons mext"] + ["vread mread vdel mdel vuneven muneven scal"] * 3), (1, 4), None, 5, 3, 3, 3, 60),
    "C08": (EVERY + " fill vread mread dinit dapply dapply dprobs", (1, 3), None, 4, 3, 3, 3, 80),
    "C08g": ("vbasis vbasis vbasis mperm mperm mperm mid inner inner inner fid vkron mkron mv mv mm mm mtrans madj vkrons mkrons mext dinit dapplym dapplym dkeep dadd dadd gc gc gc gc", (1, 4), None, 4, 4, 3, 3, 90),
    "C08t": ("mmat mmat munit munit mherm mgate" + " mtrans mtrans madj" * 3 + " gc", (1, 3), None, 3, 3, 2, 3, 80),
    "C08v": ("mperm" + " vbasis vbasis vadd vadd mv mv mv inner gc gc" * 4, (1, 4), None, 4, 4, 4, 1, 90),
    "C08m": ("mperm mperm mperm mv mv gc gc", (1, 2), None, 2, 2, 4, 2, 90),
    "C09": (EVERY + " gc gc gc churn churn fill xref dinit dapply dapplym", (1, 4), None, 4, 3, 4, 3, 80),
    "C09d": ("mperm mperm munit mmat dinit dapplym dapplym dapplym dapplym dapply gc gc", (1, 3), None, 3, 3, 1, 2, 60),
    "C10": (EVERY + " xref xref unxref active active active dinit dapply dapplym minit manc meas", (1, 4), None, 4, 3, 3, 3, 70),
    "C12": (EVERY + " vread mread dinit dapply dapplym dprobs measstat measall", (1, 4), None, 4, 3, 3, 3, 70),
    "C13": (" ".join([BUILDV, BUILDM, "vadd mv mm vkron mkron mext vdel mdel madj manc gc"] + ["vser mser vsero msero"] * 6), (1, 5), None, 5, 3, 3, 3, 60),
    "C14": (" ".join([BUILDV, BUILDM, "vadd mv mm vkron mkron mext vdel mdel madj manc gc"] + ["vtransfer mtransfer vtrano mtrano"] * 6), (1, 5), None, 5, 3, 3, 3, 60),
    "C15": (" ".join(["vunit vunit vshare vshare vshare vbasis vstate munit mgate mv"] + ["probs meas meas measall measstat fill"]), (1, 5), None, 5, 3, 3, 2, 50),
    "C16": (" ".join(["munit mperm mmat mherm"] + ["dinit dapply dapply dapply dapply dapply dapply dapplym dapplym dprobs gc"]), (1, 3), None, 3, 3, 1, 2, 40),
    "C16s": (" ".join(["munit mperm mmat mherm"] + ["dinit dapply dapply dapply dapply dapply dapply dapplym dkeep dkeep dadd dadd dprobs gc"]), (1, 3), None, 3, 3, 1, 2, 40),
    "C16b": ("mperm munit mherm mmat dinit dapply dapply dapplym dapplym dprobs", (4, 4), None, 4, 4, 1, 2, 9),
    "C17": (" ".join([BUILDM, "mperm mperm munit munit vbasis vunit vunit mv mv mm madj mkron mext"] + [RED + " manc mgarb vgarb"] * 3), (1, 4), None, 4, 4, 3, 3, 50),
    "C18": (EVERY + " reset reset resize resize active vread mread probs dinit dapply dapply dapplym dprobs", (1, 2), (2, 3), 5, 3, 3, 3, 80),
    "C18r": ("vbasis vvec vstate mmat mperm munit mgate vadd vadd madd madd mv mm vkron mkron mext mtrans madj inner inner dinit dapplym dapply dapply dkeep dadd dadd reset reset reset reset reset", (1, 3), None, 3, 3, 2, 2, 120),
    "C22": (" ".join([BUILDV, BUILDM, "vadd mv mm vkron mkron vdel mdel madj"] + ["vexport mexport vexport mexport vexpo mexpo"] * 3), (1, 4), None, 4, 3, 3, 3, 40),
}

REQ = "rqzero rqdens rqbits rqstate rqstates rqgate rqgate2 rqvec rqvec rqmat rqmat rqresize rqmeasall rqmeaszero rqmeasone rqexpv rqrelease rqfile rqfile rqfile rqfile rqpath"
I["C20"] = (" ".join([BUILDV, BUILDM, "vadd mv mm vkron mkron mtrans vdel mdel vread mread gc meas resize", REQ, REQ, "rqnew rqdprob"]), (1, 4), (3, 4), 5, 3, 3, 3, 60)
I["C10q"] = (" ".join([BUILDV, BUILDM, "vadd mv mm vkron mkron mtrans madj vdel mdel", "rqcons " * 20]), (1, 4), None, 5, 3, 3, 3, 50)


def seq(s):
    return "<<" + ", ".join('"%s"' % k for k in s.split()) + ">>"


for name, (kinds, w, caps, nmax, nmaxm, kv, km, depth) in I.items():
    m = "MC_" + name
    with open(os.path.join(D, m + ".tla"), "w") as f:
        f.write("---- MODULE %s ----\n\\* written by tools/mkmc.py\nEXTENDS %s\nMCKinds == %s\nMCWidths == %d..%d\nMCCaps == {%s}\nMCGates == 1..Len(AllGates)\n====\n"
                % (m, "Requests" if "rq" in kinds else "DDPackage", seq(kinds), w[0], w[1], ", ".join(str(c) for c in (caps or (nmax,)))))
    with open(os.path.join(D, m + ".cfg"), "w") as f:
        f.write("CONSTANTS\n  Kinds <- MCKinds\n  Widths <- MCWidths\n  Caps <- MCCaps\n  NMax = %d\n  NMaxM = %d\n  KV = %d\n  KM = %d\n  Depth = %d\n  GateIdx <- MCGates\n  Exhaustive = FALSE\nSPECIFICATION %s\nINVARIANTS TypeOK Emit\nCHECK_DEADLOCK FALSE\n"
                % (nmax, nmaxm, kv, km, depth, "SpecR" if "rq" in kinds else "Spec"))


def write(name, module, defs, consts, invs):
    m = "MC_" + name
    with open(os.path.join(D, m + ".tla"), "w") as f:
        f.write("---- MODULE %s ----\n\\* written by tools/mkmc.py\nEXTENDS %s\n%s\n====\n" % (m, module, "\n".join("MC%s == %s" % kv for kv in defs.items())))
    with open(os.path.join(D, m + ".cfg"), "w") as f:
        f.write("CONSTANTS\n" + "".join("  %s <- MC%s\n" % (k, k) for k in defs) + "".join("  %s = %s\n" % kv for kv in consts.items()))
        f.write("SPECIFICATION Spec\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n" % invs)


def variants(name, module, defs, consts, invs, simdepth, exdefs, exconsts, exdepth, fulldefs, fullconsts, exdepth2=None):
    """sampled behaviours, exhaustive short behaviours, and the whole state space of the specification (no histories)"""
    write(name + "s", module, defs, dict(consts, Depth=simdepth, Exhaustive="FALSE", Record="TRUE"), invs + " Emit")
    write(name + "x", module, dict(defs, **exdefs), dict(consts, **dict(exconsts, Depth=exdepth, Exhaustive="TRUE", Record="TRUE")), invs + " Emit")
    if exdepth2:
        write(name + "y", module, dict(defs, **exdefs), dict(consts, **dict(exconsts, Depth=exdepth2, Exhaustive="TRUE", Record="TRUE")), invs + " Emit")
    write(name + "f", module, dict(defs, **fulldefs), dict(consts, **dict(fullconsts, Depth=1, Exhaustive="TRUE", Record="FALSE")), invs)
    if "Bound" in open(os.path.join(os.path.dirname(D), module + ".tla")).read():
        with open(os.path.join(D, "MC_" + name + "f.cfg"), "a") as f:
            f.write("CONSTRAINT Bound\n")


NT = "look look look look look look ref ref unref gc agc"
variants("Number", "NumberTable",
         {"Bases": "0..12", "Offs": "-40..40", "KindsN": seq(NT + " look look sat reffixed clear gc")}, {"T": 16}, "Separated HalfStays Found", 80,
         {"Bases": "{4}", "Offs": "-4..4", "KindsN": seq("look ref gc")}, {"T": 2}, 4,
         {"Bases": "{0, 2, 4}", "Offs": "-2..2", "KindsN": seq("look ref unref sat gc clear")}, {"T": 1}, 5)
variants("Pool", "WorkPool", {"KindsW": seq("get get get temp temp put put write write get put")}, {"MaxHeld": 12}, "TypeOK", 80,
         {"KindsW": seq("get temp put write")}, {"MaxHeld": 4}, 5, {"KindsW": seq("get temp put write clear")}, {"MaxHeld": 5}, 6)
write("Poolc", "WorkPool", {"KindsW": seq("get get get get temp temp put put write get put clear")}, {"MaxHeld": 12, "Depth": 80, "Exhaustive": "FALSE", "Record": "TRUE"}, "TypeOK Emit")
KEYS = {"Bin": "(0..7) \\X (0..7)", "Un": "{<<i>> : i \\in 0..15}",
        "Tof": "{<<n, t, a, b, c, e>> : n \\in {4, 5}, t \\in 0..3, a \\in 0..2, b \\in 0..2, c \\in 0..2, e \\in 0..1}",
        "Stoch": "(0..7) \\X (0..4)",
        "DNoise": "{<<a>> : a \\in 0..3} \\cup {<<a, q>> : a \\in 0..3, q \\in 0..3} \\cup {<<a, q, r>> : a \\in 0..3, q \\in 0..2, r \\in 0..2} \\cup {<<a, q, r, s>> : a \\in 0..1, q \\in 0..1, r \\in 0..2, s \\in 0..2}",
        "Dens": "{<<l, f, r, g, u>> : l \\in 0..2, f \\in {0, 1, 2, 5}, r \\in 0..2, g \\in {0, 1, 2, 6}, u \\in 0..1}"}
for t, keys in KEYS.items():
    write("Cache" + t, "ResultCache", {"Keys": keys, "KindsR": seq("ins ins ins look look look look look look look " * 6 + ("clear grow grow" if t == "Stoch" else "clear"))},
          {"NVal": 12, "NBuck": 1, "Depth": 120, "Exhaustive": "FALSE", "Record": "TRUE"}, "Refines Emit")
write("Cachef", "ResultCache", {"Keys": "{<<1>>, <<2>>, <<3>>}", "KindsR": seq("ins look clear")},
      {"NVal": 2, "NBuck": 2, "Depth": 1, "Exhaustive": "TRUE", "Record": "FALSE"}, "Refines")
NS = "node node node node node node ref ref ref unref unref gc agc badunref"
for ar, nm in ((2, "V"), (4, "M")):
    variants("Node" + nm, "NodeStore", {"KindsS": seq(NS + " " + NS + " sat grow clear")},
             {"Arity": ar, "Levels": 4, "NWeights": 3, "MaxNodes": 14}, "NoDangling UniqueOK HeldBelow", 70,
             {"KindsS": seq("node ref unref gc")}, {"Levels": 1 if ar == 4 else 2, "NWeights": 1, "MaxNodes": 4}, 4 if ar == 2 else 3,
             {"KindsS": seq("node ref unref sat gc clear")}, {"Arity": 2, "Levels": 2, "NWeights": 1, "MaxNodes": 3})
for nm, ar, lv in (("V", 2, 4), ("M", 4, 3)):
    write("Req" + nm, "NodeRequests", {"KindsQ": seq("node node node add add op mul mul kron gc")},
          {"Arity": ar, "Levels": lv, "K": 5, "Depth": 80}, "Stable Emit")
for nm, ks in (("Export", "vexport"), ("Ser", "vser vser"), ("Trans", "vtransfer")):
    write("Big" + nm, "BigVector", {"KindsB": seq(ks)}, {"N": 16}, "Emit")
VALS = "{Zero, One, MOne, Im, MIm, Sq, CNeg(Sq), Half, CNeg(Half), W1, W3, W7, CNeg(W1), Rt2, <<2,0,0,0,0>>, <<-3,0,0,0,0>>, <<1,0,1,0,0>>, <<1,0,-1,0,0>>, <<-1,0,1,0,1>>, <<0,0,-3,0,2>>, <<5,0,-1,0,3>>, <<1,2,0,0,1>>, <<0,1,1,0,2>>, <<-1,0,2,1,0>>}"
KA = "look look work work work store mark add add sub sub mul mul mul addn subn muln div div divn query query query show show value temp free"
write("Arith", "Arith", {"KindsA": seq(KA), "Values": VALS}, {"K": 4, "Depth": 100, "Exhaustive": "FALSE"}, "Emit FieldOK")
write("Arithx", "Arith", {"KindsA": seq("look work mul div add"), "Values": "{Zero, Sq, Im}"}, {"K": 2, "Depth": 2, "Exhaustive": "TRUE"}, "Emit FieldOK")
PR = {"PDens": "{1, 2, 3}", "PNums": "{1, 2, 3}"}
write("Print1", "Printing", dict(PR, Dens="1..40 \\cup {63, 64, 100, 127, 128, 255, 256, 511, 512, 513, 1000, 1023, 1024}", Nums="1..12 \\cup {31, 64, 999, 1023, 1024, 1025, 4001}", Parts='"one"'), {}, "Emit")
write("Print3", "Printing", dict(PR, Dens="1..40 \\cup {63, 64, 127, 128, 256, 511, 1000, 1023, 1024}", Nums="1..7 \\cup {31, 999, 1023, 1025}", Parts='"mix"'), {}, "Emit")
write("Print1t", "Printing", dict(PR, Dens="1..1024", Nums="1..64", Parts='"one"'), {}, "Emit")
write("Print2", "Printing", dict(PR, Dens="{1}", Nums="{1}", Parts='"two"'), {}, "Emit")
write("Print2t", "Printing", {"PDens": "{1, 2, 3, 4, 5, 7}", "PNums": "{1, 2, 3, 5, 7}", "Dens": "{1}", "Nums": "{1}", "Parts": '"two"'}, {}, "Emit")

# up to 128 qubits
WB, WBM = "wbasis wzero wstate wvec wghz wghz", "wid wmat wmat wgate wgate wperm"
WA = "wvadd wmadd wmv wmv wmv wmm wmm wvkron wmkron wext wtrans wadj"
WS = "winner wfid wfidm wexpv wtrace wptrace wisid wprobs"
WI = {"W05": " ".join([WB, WBM, WA, WA, WA]),
      "W06": " ".join([WB, WBM, "wvadd wmadd wmv wmm wmkron wadj", WS, WS, WS]),
      "W07": " ".join([WB, WBM, "wvadd wmadd wmv wmm wvkron wmkron wext"] + ["wread wmread wvdel wmdel"] * 5),
      "W10": " ".join([WB, WBM, WA, "wvdel wmdel wmeas winit winit wanc wgarb gc wvser wmser wvtran wmtran"]),
      "W13": " ".join([WB, WBM, "wvadd wmadd wmv wmm wvkron wmkron wext"] + ["wvser wmser wvtran wmtran"] * 6),
      "W15": " ".join([WB, "wperm wgate wmv wmv wvadd"] + ["wprobs wmeas wmeas wmeasall"] * 3),
      "W16": " ".join(["wid wmat wgate wperm wgate wperm wmm wmkron wmadd wadj wdens wdens wdens wdens"]),
      "W17": " ".join([WB, WBM, "wperm wperm wmv wmm"] + ["winit wanc wgarb wgarb wisid"] * 4),
      "W01": " ".join([WB, WBM, WA, WA, "wvdel wmdel winit wanc wgarb gc wvser wmser wvtran wmtran wprobs wtrace wptrace"])}
for nm, ks in WI.items():
    write(nm, "Wide", {"KindsX": seq(ks), "WidthSet": "{4, 5, 6, 7}" if nm == "W16" else "{2, 5, 9, 12, 17, 20, 24, 33, 40, 63, 64, 65, 100, 127, 128}"},
          {"WMax": 7 if nm == "W16" else 128, "KV": 3, "KM": 3, "Depth": 30}, "TypeOK Emit")
