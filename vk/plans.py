"""What each check runs."""
import gensession as gs
import gensolve as gv
import genanneal as ga
import genstore as gt
import gennum as gn
import convs as cv

COMMON = ["TLC, the JVM, the harness and its event encoding are trusted",
          "numbers are whole multiples of a unit and small enough to be exact in the coefficient type"]


def plus(v, d):
    return v + 1 if isinstance(v, int) else None


def first_plus(v, d):
    return [v[0] + 1] + v[1:] if v else None


def last_plus(v, d):
    return v[:-1] + [v[-1] + 1] if v else None


def drop(v, d):
    return v[1:] if v else None


def negate(v, d):
    return (not v) if isinstance(v, bool) else None


def flip0(v, d):
    return [1 - v[0]] + v[1:] if v else None


def unlabel(v, d):
    return [x for x in v if x != v[0]] if v else None


def C(ev, field, to):
    return {"ev": ev, "field": field, "to": to}


def S(spec, *gens, **kw):
    d = {"gens": [(spec, g, q, t) for g, q, t in gens]}
    d.update(kw)
    return d


TAB = [C("Observe", "tab", first_plus), C("Observe", "tab", last_plus)]

PLANS = {
    "C01": S("TSession", (gs.prog_c01, 2400, 8000), corrupt=TAB),
    "C02": S("TSession", (gs.prog_c02, 1600, 6000), corrupt=TAB + [C("Ret", "e", lambda v, d: v - 1 if d["opt"] else None)]),
    "C03": S("TSession", (gs.prog_c03, 1600, 6000),
             corrupt=[C("Observe", "keys", drop), C("Observe", "gq", drop), C("Ret", "x", flip0)]),
    "C04": S("TSession", (gs.prog_c04, 1800, 6000), corrupt=TAB + [C("CFeed", "ok", negate)]),
    "C05": S("TSession", (gs.prog_c05, 1800, 6000), corrupt=[C("CFeed", "ok", negate)]),
    "C06": S("TSession", (gs.prog_c06, 1600, 6000), corrupt=[C("Ret", "labels", unlabel)]),
    "C07": S("TSession", (gs.prog_c07, 1600, 6000), corrupt=TAB + [C("Ret", "labels", unlabel)]),
    "C08": S("TSolve", (gv.prog_c08, 2400, 6000), corrupt=[C("Gen", "tab", lambda v, d: [v[0]] + [x + 900 for x in v[1:]] if len(v) > 1 else None)]),
    "C09": S("TSolve", (gv.prog_c09, 2400, 6000), corrupt=[C("Done", "x", flip0), C("Gen", "calls", plus)]),
    "C10": S("TSession", (gs.prog_c10, 1200, 4000), corrupt=[C("Ret", "e", lambda v, d: v + 1 if d["opt"] else None), C("Ret", "sole", plus)]),
    "C11": S("TSolve", (gv.prog_c11, 2000, 6000), corrupt=[C("Err", "code", lambda v, d: v + 1000), C("Done", "x", flip0)]),
    "C12": S("TAnneal", (ga.prog_c12, 2000, 6000), corrupt=[C("Temp", "s", flip0)]),
    "C13": S("TAnneal", (ga.prog_c13, 3000, 8000), corrupt=[C("Temp", "s", flip0)]),
    "C14": S("TAnneal", (ga.prog_c14, 1500, 4000), corrupt=[C("Thermo", "br", lambda v, d: v[1:] if v else None)]),
    "C15": S("TAnneal", (ga.prog_c15, 1600, 4000), corrupt=[C("Temp", "s", lambda v, d: None)]),
    "C16": S("TStore", (gt.prog_c16, 4000, 10000), corrupt=[C("Energy", "e", plus), C("Energy", "lf", first_plus)]),
    "C17": S("TStore", (gt.prog_c17, 3000, 8000), corrupt=[C("Look", "prods", drop), C("Look", "w", first_plus)]),
    "C18": S("TStore", (gt.prog_c18, 2400, 6000), corrupt=[C("ReprOp", "vec", flip0), C("ReprOp", "ok", lambda v, d: (not v) if d["op"] in ("set", "flip", "get", "idx") else None)]),
    "C19": S("TSession", (gs.prog_c19, 1200, 4000), (gs.maps, 1500, 5000), corrupt=TAB + [C("Map", "seen", drop)]),
    "C20": S("TStore", (gt.prog_c20, 800, 2000), corrupt=[C("View", "nodes", drop)]),
    "C22": S("TNum", (gn.prog_c22, 3000, 10000),
             corrupt=[C("Conv", "res", lambda v, d: None if not d["v"][2] else
                        [[x[0], x[1], [1 - x[2][0]] + x[2][1:]] for x in v])]),
    "C24": S("TNum", (gn.prog_c24, 4000, 12000), corrupt=[C("Ops", "min", lambda v, d: [1 - v[0]] + v[1:] if v[2] else None), C("Ops", "fin", lambda v, d: 1 - v)]),
    "C23": S("TStore", (gt.prog_c23, 3000, 8000), corrupt=[C("NSet", "iter", drop), C("NSet", "found", negate), C("NSet", "ok", negate)]),
    "C25": S("TSolve", (gv.prog_c25, 800, 3000), corrupt=[
        C("Gen", "rngs", lambda v, d: v[:-1] + [v[0]] if len(v) > 1 else None),
        C("Gen", "rngs", lambda v, d: [[v[0][0], v[0][0]]] + v[1:] if v else None)]),
    "C26": S("TAnneal", (ga.prog_c26, 400, 1500), corrupt=[
        C("Starts", "up", lambda v, d: [d["runs"]] + v[1:]),
        C("Starts", "kinds", lambda v, d: v - 1 if d["n"] <= 6 or d["n"] >= 64 else None)]),
    "C21": S("TAnneal", (ga.prog_c21, 900, 3000), corrupt=[C("Separable", "e", plus)]),
}
PLANS["C06"]["gens"].append(("TSolve", gv.prog_c06, 400, 1500))
PLANS["C10"]["gens"].append(("TSolve", gv.prog_c10, 1000, 3000))
PLANS["C15"]["gens"].append(("TSession", gs.prog_c15, 1000, 3000))
for _p, _q, _t in (("C01", 500, 3000), ("C04", 300, 2000), ("C06", 300, 2000), ("C09", 500, 3000), ("C10", 500, 3000),
                   ("C15", 400, 2000)):
    PLANS[_p]["gens"].append(("TSession", gs.prog_big, _q, _t))
for _p in ("C01", "C02", "C04", "C06", "C07", "C10"):
    PLANS[_p]["gens"].append(("TSession", getattr(gs, "wide_" + _p.lower()), 120, 600))


for _p, _q in (("C02", 72), ("C03", 24), ("C06", 24)):
    PLANS[_p]["gens"].append(("TSession", gs.many, _q, 5 * _q))


LAWS = ["ExpandLaw", "DegreeLaw", "LabelLaw", "FeedLaw", "MapLaw", "Dump"]


def lang(alpha, n, conv, deep=None, feeding="none", quick=1500, prefix="NoPrefix"):
    return {"module": "Lang", "spec": "TSession", "invs": LAWS, "conv": conv, "quick": quick,
            "consts": {"N": n, "Alphabet": "<- Alpha" + alpha, "Feeding": '"%s"' % feeding, "Late": "<- LateV",
                       "Prefix": "<- " + prefix},
            "deep": {"N": deep or n}}


def reduce(tag, unknown="FALSE", nv=4, coefs="C1", monos=5, quick=300, deep=None, conv=True):
    return {"module": "Reduce", "spec": "TSession", "conv": cv.reduce(tag) if conv else None, "quick": quick,
            "invs": ["MinLaw", "SignLaw", "KnownLaw", "NoLoss", "Dump"], "props": ["Ends"],
            "consts": {"NV": nv, "Coefs": "<- " + coefs, "MinDeg": 3, "MaxMonos": monos, "Unknown": unknown},
            "deep": deep or {}}


def loop(tag, which, it=2, gen=2, samp=1, fails=1, strength=5, quick=250, deep=None):
    return {"module": "SolveLoop", "spec": "TSolve", "conv": cv.solve(tag + str(which)), "quick": quick,
            "invs": ["Shares", "Given", "Early", "Full", "Answered", "NoAnswerAfterFailure", "Dump"],
            "props": ["Grow", "Keep", "Terminates"],
            "consts": {"IT": it, "GEN": gen, "SAMP": samp, "Strength": strength, "Fails": fails, "Which": which},
            "deep": deep or {}}


def anneal(tag, n, lin, pair, sw, quick, deep=None, types=False, starts="all"):
    return {"module": "Anneal", "spec": "TAnneal", "conv": cv.anneal(tag, types), "quick": quick,
            "invs": ["Kept", "Hot", "ColdEnd", "Dump"], "props": ["OneFlip", "Greedy", "NoRise", "Terminates"],
            "consts": {"N": n, "LinW": "<- " + lin, "PairW": "<- " + pair, "Sweeps": sw, "Starts": '"%s"' % starts},
            "deep": deep or {}}


SAMPLING = {"module": "Sampling", "spec": "TSolve", "conv": cv.sampling("smp"), "quick": 250,
            "invs": ["Whole", "Lowest", "Honest", "NeverSwallowed", "Bounded", "Dump"], "props": ["Terminates"],
            "consts": {"N": 3, "W": 3, "MakeFails": "TRUE"}, "deep": {"N": 4, "W": 4}}
PACKED = {"module": "Packed", "spec": "TStore", "conv": cv.packed("pk"), "quick": 2500,
          "invs": ["Refines", "Dump"], "props": ["Beyond", "Local"],
          "consts": {"Lens": "<- Some", "Depth": 2, "Garbage": "<- Junk"}}
ITERS = {"module": "Iters", "spec": "TStore", "invs": ["Once", "Right", "Complete", "Soon", "Reaches", "Tri"],
         "props": ["StaysOver"], "consts": {"MaxN": 7, "Steps": 40}, "deep": {"MaxN": 12, "Steps": 110}}


def store(tag, kind, quick=400):
    return {"module": "Store", "spec": "TStore", "conv": cv.store(tag, kind), "quick": quick,
            "invs": ["Accumulates", "LocalField", "Dump"],
            "consts": {"N": 3, "Weights": "<- Ws", "Depth": 2, "Values": "<- Few"}, "deep": {"Depth": 3}}


STREAMS = {"module": "Streams", "spec": "TSolve", "invs": ["Apart", "Once", "First", "Bounded"],
           "props": ["OnWard", "Terminates"], "consts": {"N": 3, "W": 2, "D": 2}, "deep": {"N": 4, "W": 3}}
STARTS = {"module": "Starts", "spec": "TAnneal", "invs": ["Even", "Half", "Pairs", "Fits"], "props": [],
          "consts": {"B": 3, "MaxN": 6}, "deep": {"MaxN": 9}}

ENUM = {
    "C25": [STREAMS] + [loop("sl", w, quick=150) for w in (1, 2, 3)],
    "C26": [STARTS],
    "C01": [lang("Poly", 4, cv.lang("lp"), deep=5, quick=1000), lang("Ops", 4, cv.lang("lo"), quick=1000)],
    "C02": [reduce("rd"), reduce("rdu", "TRUE", quick=300, coefs="C1", monos=2, deep={"MaxMonos": 5}),
            lang("Cubic", 5, cv.lang("lc"), deep=6, quick=400)],
    "C03": [lang("Poly", 4, cv.lang("lp", cap=0), deep=5, quick=900), reduce("rd", quick=250)],
    "C04": [lang("Ph", 4, cv.lang("lf"), deep=5, feeding="all", quick=1500),
            lang("PhHi", 5, cv.lang("lfh", prefix=cv.XYZ), prefix="Cubic", feeding="all", quick=500, deep=6)],
    "C05": [lang("Ph", 4, cv.lang("lf"), deep=5, feeding="all", quick=2000),
            lang("PhHi", 5, cv.lang("lfh", prefix=cv.XYZ), prefix="Cubic", feeding="all", quick=500, deep=6)],
    "C06": [lang("Con", 5, cv.lang("lk", rets=8), deep=6, quick=1500)],
    "C07": [lang("Pen", 5, cv.lang("lq"), deep=6, quick=1500)],
    "C08": [loop("sl", w) for w in (1, 2, 3, 5)],
    "C09": [loop("sl", w) for w in (1, 2, 3, 4, 5)]
           + [loop("sm", w, it=1, gen=2, samp=2, fails=0, deep={"GEN": 3}) for w in (2, 3)],
    "C10": [lang("Poly", 4, cv.lang("lp", rets=8), deep=5, quick=500)] + [loop("sl", w, quick=100) for w in (1, 2, 5)],
    "C11": [SAMPLING] + [loop("sl", w, quick=150) for w in (1, 2, 3)],
    "C12": [anneal("an", 2, "W1", "W1", 2, 400, {"LinW": "<- W2", "PairW": "<- W2"}),
            anneal("at", 3, "W1", "W1n", 1, 600, {"PairW": "<- W1"}, starts="two")],
    "C13": [anneal("an", 2, "W2", "W2", 2, 1200),
            anneal("at", 3, "W1", "W1n", 1, 1200, {"PairW": "<- W1"}, starts="two")],
    "C15": [anneal("an", 2, "W1", "W1", 2, 400, {"LinW": "<- W2", "PairW": "<- W2"}, types=True)],
    "C14": [dict(anneal("an", 2, "W2", "W2", 1, 0, {"Sweeps": 2}), conv=None)],
    "C16": [store("se", "energy")],
    "C17": [store("sk", "look"), ITERS],
    "C18": [PACKED],
    "C19": [lang("Map", 4, cv.lang("lm"), deep=5, quick=800), lang("Map", 4, cv.trees("lt"), deep=5, quick=800)],
    "C20": [ITERS],
    "C23": [{"module": "NodeSets", "spec": "TStore", "conv": cv.nodesets("ns"), "quick": 2000,
             "invs": ["ListLaw", "PairLaw", "Dump"], "consts": {"Nodes": "{0, 1, 2, 3}", "MaxLen": 3},
             "deep": {"Nodes": "{0, 1, 2, 3, 4}", "MaxLen": 4}}],
    "C22": [{"module": "Convert", "spec": "TNum", "conv": cv.number("nm"), "quick": 7000,
             "invs": ["Preserve", "ThereAndBack", "Common", "Into", "Monotone", "Odd", "Dump"],
             "consts": {"Lengths": "<- Ls", "Widths": "<- Ws"},
             "deep": {"Lengths": "<- LsAll", "Widths": "<- WsAll"}}],
    "C24": [{"module": "Helpers", "spec": "TNum", "conv": cv.helpers("nh"), "quick": 4000,
             "invs": ["Trichotomy", "Agrees", "Extremes", "Helped", "Dump"],
             "consts": {"Ls": "<- Few", "Es": "<- FewE"}, "deep": {"Es": "<- ManyE"}}],
}

for _p, _e in ENUM.items(): PLANS[_p]["enum"] = _e


def enums(plan, tier):
    return plan.get("enum", [])


def scenarios(plan, tier, rnd):
    for spec, g, q, t in plan["gens"]:
        yield spec, "%s.%s" % (spec, g.__name__), g, (t if tier == "thorough" else q)


def models(plan, tier):
    for j in plan.get("mc", []):
        if tier == "quick" and j.get("only") == "thorough": continue
        yield j
