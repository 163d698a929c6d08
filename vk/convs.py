"""Behaviours printed by TLC -> scenario lines for the harness."""
import gensession as gs

BARE = {"add", "adda", "radd", "mul", "mula", "rmul", "sub", "suba", "neg", "dup", "pen", "zero", "one",
        "mapid", "mapswap", "mapstrip", "mapstripall", "mapflip", "mapgrow"}


def ops_of(prog):
    return [(o[0],) if o[0] in BARE else tuple(o) for o in prog]


XYZ = (('bin', 0), ('bin', 1), ('mul',), ('bin', 2), ('mul',))


def turn(seq, k):
    return seq[k % len(seq)]


def lang(tag, prefix=(), hi=False, types=None, w=(1, 2), cap=16, rets=4):
    def conv(b, k):
        ops = list(prefix) + ops_of(b["ops"])
        if b["fed"]:
            pre, cf = [tuple(x) for x in b["pre"]], [tuple(x) for x in b["cf"]]
            if len(pre) > 1 and k % 2:
                ops += [("feed", (pre[0],)), ("feed", tuple(pre[1:]))]
            elif pre: ops += [("feed", tuple(pre))]
            d = dict(cf)
        else: d = None
        e = gs.build(ops, 1)
        if e is None or gs.nested_bad(e): return None
        ww = turn(w, k)
        deg = gs.totdeg(e)
        tys = [t for t in (types or gs.TYPES) if gs.fits(e, t, 1, ww, 3, 6)]
        if not tys: return None
        return gs.line("%s_%d" % (tag, k), turn(tys, k), ops, w=ww, e=e, d=d if d else None, seed=k * 7919 + 1,
                       cap=cap, rets=rets)
    return conv


def trees(tag):
    """Programs of the map alphabet as trees."""
    def conv(b, k):
        ops = ops_of(b["ops"])
        fs = [o for o in ops if o[0].startswith("map")]
        ops = [o for o in ops if not o[0].startswith("map")]
        ren = {"add": "radd", "mul": "rmul"}
        ops = [(ren.get(o[0], o[0]),) + o[1:] for o in ops]
        if not fs: fs = [turn([("mapgrow",), ("mapflip",), ("mapstrip",), ("mapadd", 1)], k)]
        return "kind=map id=%s_%d ty=%s ops=%s f=%s" % (
            tag, k, turn(["i32", "f64"], k), ";".join(map(gs.show, ops)), ";".join(map(gs.show, fs)))
    return conv


def reduce(tag, types=("i32", "f64", "i64", "f32", "i128")):
    def conv(b, k):
        ops, d = [], None
        for j, (vs, c, known) in enumerate(b):
            for i, v in enumerate(vs):
                ops.append(("bin", v))
                if i: ops.append(("mul",))
            if known: ops.append((turn(["muln", "nmul"], k), c))
            else:
                ops += [("ph", 0), ("addn", c - 1), ("mul",)]
                d = {0: 1}
            if j: ops.append(("add",))
        e = gs.build(ops, 1)
        return gs.line("%s_%d" % (tag, k), turn(types, k), ops, e=e, d=d, seed=k + 5, cap=18, rets=2)
    return conv


def solve(tag):
    def conv(b, k):
        ops = ops_of(b["prog"])
        samp, hist = b["samp"], b["hist"]
        flat, err = [], ""
        for g, a in enumerate(hist):
            if not a:
                err = " err=%d:%d:%d" % (g, -1 if samp == 1 else k % samp, 7 + k % 50)
                flat += [0] * samp
            else: flat += [p - 1 for p in a]
        ty = turn(["i32", "f64", "i64", "f32", "i16", "i128"], k)
        return ("kind=solve id=%s_%d ty=%s nv=2 nl=%d it=%d gen=%d samples=%d strength=%d sunit=1 mode=fix each=1 seed=1"
                " multi=1 fix=%s%s%s%s ops=%s" % (
                    tag, k, ty, b["nl"], b["it"], b["gen"], samp, b["strength"], ",".join(map(str, flat)), err,
                    " rep=2" if k % 5 == 0 else "", " K=1" if ty[0] == "i" and k % 2 else "",
                    ";".join(map(gs.show, ops))))
    return conv


def sampling(tag):
    def conv(b, k):
        n = len(b["fate"])
        fix = [1 if f == "low" else turn([0, 2, 3], i + k) for i, f in enumerate(b["fate"])]
        s = ("kind=solve id=%s_%d ty=%s nv=2 nl=0 it=1 gen=%d samples=%d strength=50 sunit=1 mode=fix each=1 seed=1"
             " multi=1 fix=%s ops=bin:0;muln:-3;bin:1;muln:2;add;bin:0;bin:1;mul;add" % (
                 tag, k, turn(["i32", "f64", "i64"], k), turn([1, 1, 2], k), n, ",".join(map(str, fix))))
        if b["bad"]: return s + " gerr=0:%d:%d" % (b["bad"] - 1, 30 + b["bad"])
        errs = ["0:%d:%d" % (i, 40 + i) for i, f in enumerate(b["fate"]) if f == "fail"]
        if errs: s += " err=" + ",".join(errs)
        return s + " order=" + ",".join(str(i - 1) for i in b["order"])
    return conv


def anneal(tag, types=False):
    def conv(b, k):
        n = len(b["h"])
        es = [(i, i, w) for i, w in enumerate(b["h"]) if w or k % 3 == 0]
        es += [((p[0], p[1]) if k % 2 else (p[1], p[0])) + (p[2],) for p in b["J"]]
        coins = b["coins"] + [0, 0]
        ty = "f64,i32,f32,i8,i128" if types else turn(["f64", "i32", "f32", "i64", "i16", "i8"], k)
        return "kind=sweeps id=%s_%d ty=%s n=%d m=%s sparse=0 init=%s us=%s ts=1000 sw=%d" % (
            tag, k, ty, n, ",".join("%d:%d:%d" % e for e in es), ",".join(map(str, b["start"])),
            ",".join("0" if c else "0.999999999999999" for c in coins), b["sw"])
    return conv


def store(tag, kind):
    def conv(b, k):
        ty = turn(["i32", "f64", "i64", "f32", "i8", "i16", "i128"], k)
        if kind == "look":
            m = ",".join("%d:%d:%d" % tuple(a) for a in b)
            if k % 2: return "kind=fixedstore id=%s_%d ty=%s n=3 m=%s" % (tag, k, ty, m)
            return "kind=sparsestore id=%s_%d ty=%s n=3 high=0 m=%s" % (tag, k, ty, m)
        terms = ",".join("%d:%d" % (i, w) if i == j else "%d:%d:%d" % (i, j, w) for i, j, w in b)
        st = turn(["fixed", "sparse", "high"], k)
        node = turn(["bin", "spin", "two:3:-2", "spin", "two:-1:2"], k // 3)
        xs = ",".join("".join(str(x >> i & 1) for i in range(3)) for x in range(8))
        pre = turn(["", " pe=0", " pl=0", " pe=0 pl=0", " pe=-1"], k)
        return "kind=energy id=%s_%d ty=%s n=3 node=%s store=%s m=%s xs=%s%s" % (tag, k, ty, node, st, terms, xs, pre)
    return conv


def packed(tag):
    def conv(b, k):
        name = {"set0": "set:%d:0", "set1": "set:%d:1", "flip": "flip:%d", "get": "get:%d"}
        ops = [name[o] % i for o, i in b["hist"]]
        if k % 4 == 1: ops.insert(1, "clone"); ops.append("back")
        return "kind=repr id=%s_%d init=%s ops=%s random=0" % (tag, k, ",".join(map(str, b["init"])), ";".join(ops))
    return conv


def number(tag):
    def conv(b, k):
        g, e, bits = b["v"]
        return "kind=conv id=%s_%d from=%s v=%d:%d:%s" % (tag, k, b["t"], g, e, "".join(map(str, bits)))
    return conv


def nodesets(tag):
    def conv(b, k):
        p, q = b
        ty = turn(["pair", "list", "set"], k)
        if ty != "pair" and not (p and q): ty = "pair"
        one = lambda x, j: ".".join(map(str, x)) + ("/set" if (k + j) % 4 == 0 else "")
        return "kind=nodeset id=%s_%d ty=%s in=%s,%s" % (tag, k, ty, one(p, 0), one(q, 1))
    return conv


def helpers(tag):
    def conv(b, k):
        one = lambda v: "%d:%d:%s" % (v[0], v[1], "".join(map(str, v[2])))
        return "kind=numops id=%s_%d from=%s a=%s b=%s" % (tag, k, b["t"], one(b["a"]), one(b["b"]))
    return conv
