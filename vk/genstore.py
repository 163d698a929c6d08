"""Scenario generators for the data structures of the annealers crate."""
import re

from genanneal import ALL


def prog_c18(r, n):
    out = []
    for ln in [r.choice([65535, 65536, 65537, 70000, 131073]), r.choice([2047, 2048, 4096, 8191, 8192, 8193, 40000])]:
        ops = []
        sp = [p for p in (0, 7, 8, 255, 256, 2047, 2048, 32767, 32768, 65535, 65536, ln - 2, ln - 1) if p < ln]
        init = sorted({r.choice(sp + [r.randrange(ln)]) for _ in range(r.randint(0, 8))})
        for _ in range(12):
            i = r.choice(sp + [r.randrange(ln), ln, ln + 1])
            ops.append(r.choice(["set:%d:%d" % (i, r.randint(0, 1)), "flip:%d" % i, "get:%d" % i]))
        out.append("kind=longrepr id=c18_%d len=%d init=%s ops=%s" % (len(out), ln, ",".join(map(str, init)), ";".join(ops)))
    while len(out) < n:
        ln = r.choice([0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 24, 31, 33, 64, 65])
        if r.random() < .06: ln = r.choice([127, 128, 129, 255, 256, 257, 300, 512, 515, 1000])
        init = [r.randint(0, 1) for _ in range(ln)]
        ops = []
        for _ in range(r.choice([1, 5, 20, 40] if ln < 100 else [5, 12])):
            k = r.random()
            i = r.randrange(ln) if ln and r.random() < .85 else ln + r.choice([0, 0, 1, 3, 7, 8, 100])
            if k < .3: ops.append("set:%d:%d" % (i, r.randint(0, 1)))
            elif k < .5: ops.append("flip:%d" % i)
            elif k < .6: ops.append("get:%d" % i)
            elif k < .68: ops.append("idx:%d" % i)
            elif k < .76 and i < ln: ops.append("uset:%d:%d" % (i, r.randint(0, 1)))
            elif k < .84 and i < ln: ops.append("uflip:%d" % i)
            elif k < .9: ops.append("clone")
            elif k < .95: ops.append("back")
            else: ops.append("again")
        out.append("kind=repr id=c18_%d init=%s ops=%s random=%d" % (
            len(out), ",".join(map(str, init)), ";".join(ops), r.random() < .15))
    return out


def fractions(r, ls, p=.25):
    """Weights of the float types divided by a power of two."""
    return [l + " unit=%d" % r.choice([2, 4, 16, 1024, 65536]) if re.search(r"ty=f(32|64) ", l) and r.random() < p else l
            for l in ls]


def prog_c17(r, n):
    out = []
    for nv in [r.choice([361, 362, 363, 400, 512, 513]), r.choice([1000, 1024, 1500, 2049])]:
        ids = [0, 1, 254, 255, 256, 257, nv - 2, nv - 1, 300]
        pick = lambda: r.choice(ids + [r.randrange(nv)])
        adds = [(pick(), pick(), r.randint(1, 5)) for _ in range(r.choice([4, 12]))]
        adds += [(nv - 1, nv - 1, 1), (nv - 1, 0, 2), (0, nv - 1, 1)]
        out.append("kind=bigstore id=c17_%d ty=%s n=%d m=%s at=%s" % (
            len(out), r.choice(["i32", "i16", "f64", "i64"]), nv, ",".join("%d:%d:%d" % a for a in adds),
            ",".join("%d:%d:0" % (pick(), pick()) for _ in range(12))))
    while len(out) < n:
        ty = r.choice(ALL)
        mag = 3 if ty == "i8" else 50
        k = r.random()
        if k < .55:
            nv = r.choice([0, 1, 2, 2, 3, 4, 5, 7, 11])
            if r.random() < .015: nv = r.choice([16, 17, 31, 32, 33, 40, 63, 64, 65, 66, 70])
            adds = [(r.randrange(nv), r.randrange(nv), r.randint(-mag, mag))
                    for _ in range(r.choice([0, 1, 4, 12, 30]))] if nv else []
            if nv and r.random() < .5:
                # both orders of one pair
                a, b = r.randrange(nv), r.randrange(nv)
                adds += [(a, b, 2), (b, a, 3), (a, b, -1)]
            if len(out) == n // 2: nv = r.choice([256, 257, 260]); adds = [(r.randrange(nv), r.randrange(nv), 1) for _ in range(3)] + [(nv - 1, 0, 2), (nv - 1, nv - 1, 3), (254, nv - 1, 4)]
            more = ""
            if nv and r.random() < .35:
                m2 = [r.choice(adds)[:2] if adds and r.random() < .5 else (r.randrange(nv), r.randrange(nv)) for _ in range(r.randint(1, 5))]
                more = " m2=" + ",".join("%d:%d:%d" % (a, b, r.randint(-3, 3)) for a, b in m2)
            if r.random() < .3:
                off = lambda: nv + r.choice([0, 0, 1, 2, 7])
                bad = [r.choice([(off(), off()), (off(), r.randrange(nv) if nv else 0), (r.randrange(nv) if nv else 0, off())]) for _ in range(3)]
                more += " bad=" + ",".join("%d:%d:%d" % (a, b, r.randint(1, 3)) for a, b in bad)
                if " m2=" not in more and nv: more += " m2=0:%d:1" % (nv - 1)
            out.append("kind=fixedstore id=c17_%d ty=%s n=%d m=%s%s" % (
                len(out), ty, nv, ",".join("%d:%d:%d" % a for a in adds), more))
        else:
            high = int(r.random() < .5)
            nv = r.choice([1, 2, 3, 5, 9])
            far = r.random() < .05
            if far: nv = r.choice([32, 64, 65, 130, 200])
            adds = []
            for _ in range(r.choice([0, 1, 3, 8, 20] if not far else [20, 60])):
                m = r.choice([1, 2, 2] if not high else [1, 2, 3, 4, 4, 5, 7])
                m = min(m, nv)
                vs = r.sample(range(nv), m) if high else [r.randrange(nv) for _ in range(m)]
                adds.append(":".join(map(str, vs + [r.randint(-mag, mag)])))
            if adds and r.random() < .5: adds.append(adds[0])
            more = ""
            if r.random() < .35 and not far:
                m2 = []
                for _ in range(r.randint(1, 4)):
                    m = min(nv, r.choice([1, 2, 2] if not high else [1, 2, 3, 4]))
                    vs = r.sample(range(nv), m)
                    if adds and r.random() < .5: vs = r.choice(adds).split(":")[:-1]
                    m2.append(":".join(map(str, list(vs) + [r.randint(-3, 3)])))
                more = " m2=" + ",".join(m2)
            out.append("kind=sparsestore id=c17_%d ty=%s n=%d high=%d m=%s%s" % (len(out), ty, nv, high, ",".join(adds), more))
    return fractions(r, out)


def prog_c16(r, n):
    out = []
    while len(out) < n:
        ty = r.choice(ALL)
        store = r.choice(["fixed", "sparse", "high"])
        nv = r.choice([0, 1, 2, 3, 4, 5, 6])
        mag = 2 if ty == "i8" else 9
        wide = ty != "i8" and r.random() < .03
        if wide: nv = r.choice([16, 20, 33, 63, 64, 65, 70, 100])
        if wide and r.random() < .1: nv = r.choice([256, 257, 300])
        terms = []
        for _ in range(r.choice([0, 1, 2, 4, 8, 14] if not wide else [20, 60])):
            if not nv: break
            k = r.choice([1, 2, 2]) if store != "high" else r.choice([1, 2, 3, 4, 4, 5, 6])
            vs = r.sample(range(nv), min(k, nv))
            terms.append((vs, r.randint(-mag, mag)))
        node = r.choice(["bin", "spin", "spin", "two:%d:%d" % (r.randint(-3, 5), r.randint(-3, 5))])
        big = 1
        if node[0] == "t": big = max(abs(int(x)) for x in node.split(":")[1:]) + 1
        worst = sum(abs(w) * max(big, 1) ** len(vs) for vs, w in terms) * 2 + 1
        if worst > {"i8": 120, "i16": 30000}.get(ty, 10**6): continue
        xs = {"".join(r.choice("01") for _ in range(nv)) for _ in range(4 if not wide else 2)}
        if not nv: xs = {""}
        if nv and "" in xs: continue
        out.append("kind=energy id=c16_%d ty=%s n=%d node=%s store=%s m=%s xs=%s" % (
            len(out), ty, nv, node, store,
            ",".join(":".join(map(str, vs + [w])) for vs, w in terms), ",".join(sorted(xs)))
            + r.choice(["", "", " pe=0", " pl=0", " pe=%d" % r.randint(-100, 100), " pl=%d" % r.randint(-100, 100),
                        " pe=%d pl=%d" % (r.randint(-2, 2), r.randint(-2, 2))]))
    return fractions(r, out)


def prog_c20(r, n):
    out = []
    while len(out) < n:
        cap = r.choice([-1, -1, 0, 1, 2, 3, 4, 5, 6, 8, 12])
        if r.random() < .03: cap = r.choice([16, 17, 24, 32, 33])
        if r.random() < .004: cap = r.choice([64, 65, 70])
        if cap < 0: take = r.choice([1, 2, 6, 12, 30, 60, 90, 90, 200, 700])
        else: take = r.choice([cap * (cap - 1) // 2 + k for k in (0, 1, 2, 5)] + [max(1, cap)])
        out.append("kind=view id=c20_%d cap=%d take=%d lo=%d hi=%d" % (len(out), cap, take, r.randint(-99, 9), r.randint(10, 99)))
    return out


def prog_c23(r, n):
    out = []
    while len(out) < n:
        ty = r.choice(["pair", "pair", "list", "set"])
        top = r.choice([2, 3, 4, 8, 70, 300, 1000000])
        ins = []
        for _ in range(r.choice([1, 2, 4, 8, 16])):
            if ty == "pair": k = r.choice([0, 1, 1, 2, 2, 2, 2, 2, 3, 4])
            else: k = r.choice([1, 1, 2, 2, 3, 4, 5, 6, 8, 12, 20])
            if r.random() < .35 and ins:
                q = [int(x) for x in r.choice(ins).replace("/set", "").split(".") if x]
                r.shuffle(q)
                if r.random() < .4 and q: q[r.randrange(len(q))] = r.randrange(top)
                if len(set(q)) < len(q): continue
            else:
                q = r.sample(range(top), min(k, top))
            if ty != "pair" and not q: continue
            ins.append(".".join(map(str, q)) + ("/set" if r.random() < .3 else ""))
        if not ins: continue
        out.append("kind=nodeset id=c23_%d ty=%s in=%s" % (len(out), ty, ",".join(ins)))
    return out
