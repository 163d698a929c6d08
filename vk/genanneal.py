"""Scenario generators for annealing runs."""
ALL = ["f64", "f32", "i8", "i16", "i32", "i64", "i128"]


def edges(es): return ",".join("%d:%d:%d" % e for e in es)


def coeffs(n, es):
    h, J = [0] * n, {}
    for a, b, w in es:
        if a == b: h[a] += w
        else: J[(min(a, b), max(a, b))] = J.get((min(a, b), max(a, b)), 0) + w
    return h, J


def spread(n, es):
    """Largest sum of absolute weights around one variable, over all adds."""
    t = [0] * max(n, 1)
    for a, b, w in es:
        t[a] += abs(w)
        if a != b: t[b] += abs(w)
    return max(t)


def model(r, n, dens=None, mag=None, mult=1):
    es = []
    dens = r.choice([.3, .6, 1.0]) if dens is None else dens
    mag = r.choice([1, 2, 3, 5, 9]) if mag is None else mag
    for a in range(n):
        for b in range(a, n):
            if r.random() < dens or a == b and r.random() < .5:
                w = r.randint(-mag, mag) * mult
                if r.random() < .1:
                    x = r.randint(-mag, mag) * mult
                    es.append((b, a, x)); w -= x
                es.append((a, b, w) if r.random() < .7 else (b, a, w))
    r.shuffle(es)
    return es


def types_for(r, n, es, k=None):
    m = spread(n, es) * 2 + 2
    ok = [t for t in ALL if not (t == "i8" and m > 60)]
    k = k or r.choice([1, 1, 2, 3])
    return r.sample(ok, min(k, len(ok)))


TOP = {"i8": 127, "i16": 32767, "i32": 2147483647}


def tight(r, nv, ty, sparse=False):
    """Every change of energy fits the type, the sum of absolute weights of some
    variable does not: what is added up around a variable reaches the highest
    number and minus that number, but no further."""
    top = TOP[ty]
    pos, neg = [0] * nv, [0] * nv
    es = []
    pairs = [(a, b) for a in range(nv) for b in range(a, nv)]
    r.shuffle(pairs)
    for a, b in pairs:
        side = r.choice([pos, neg])
        left = top - max(side[a], side[b])
        if left < 1: continue
        w = r.choice([left, left, r.randint(1, left), left // 2 + 1, 1])
        for k in {a, b}: side[k] += w
        es.append((a, b, w if side is pos else -w))
    return es if any(p + q > top for p, q in zip(pos, neg)) else None


def sparse_n(r, es, n):
    """Relabels for a sparse model with unused indices; the state ends with the
    last used one."""
    m = sorted(r.sample(range(n + r.choice([0, 0, 2, 5])), n))
    es = [(m[a], m[b], w) for a, b, w in es]
    top = max([max(a, b) for a, b, _ in es], default=-1) + 1
    return es, top


def sweeps(r, n, tag, cold=False, types=False, coins=False):
    out = []
    while len(out) < n:
        nv = r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 10])
        es = model(r, nv)
        sp = r.random() < .3
        if sp:
            es, nv = sparse_n(r, es, nv)
            # the state may be longer than the model
            nv += r.choice([0, 0, 1, 3])
        tys = types_for(r, nv, es, r.choice([3, 4, 7]) if types else None)
        init = [r.randint(0, 1) for _ in range(nv)]
        T = r.randint(1, 6)
        sw = r.choice([0] + [1] * 9 + [2] * 5 + [3] * 3 + [7])
        if coins and r.random() < .6:
            top = max(spread(nv, es), 1)
            us = [r.choice(["0", "0.999999999999999"]) for _ in range(r.randint(2, 30))]
            hi = max(1, min(2000, int(20000 / top)))
            ts = [r.randint(1, hi) for _ in range(T)]
        else:
            us = [r.choice(["0.5", "0.3", "0.05", "0.9", "0.000001"])]
            top = max(spread(nv, es), 1)
            ts = [-1 if cold or r.random() < .2 else r.randint(0, top) for _ in range(T)]
            if not cold: ts.sort(key=lambda t: -t if r.random() < .8 else t)
            if r.random() < .1: ts[r.randrange(T)] = 10**9      # no cooling at all
            if cold:
                ts = [-1] * r.choice([2, 4, 8, 12])
        out.append("kind=sweeps id=%s_%d ty=%s n=%d m=%s sparse=%d init=%s us=%s ts=%s sw=%d" % (
            tag, len(out), ",".join(tys), nv, edges(es), sp, ",".join(map(str, init)), ",".join(us),
            ",".join(map(str, ts)), sw))
        if set(tys) <= {"f32", "f64"} and r.random() < .5: out[-1] += " unit=%d" % r.choice([2, 8, 64, 1024, 1 << 20])
        if r.random() < .1: out[-1] += " inf=1"
        if r.random() < .5: out[-1] += " eps=" + r.choice(["0.001", "0.02", "0.98", "0.999"] + (["0.000000001", "0.999999999"] * 2 if len(us) == 1 and top <= 30 else []))
    return out


def wide(r, n, tag, cold=False):
    """More variables than fit one machine word, few couplings."""
    out = []
    while len(out) < n:
        nv = r.choice([63, 64, 65, 66, 70, 96, 127, 128, 129, 130, 140])
        if len(out) % 5 == 2: nv = r.choice([255, 256, 257, 257, 258, 258, 300])
        es = [(a, a, r.choice([-2, -1, 1, 2, 3])) for a in range(nv) if r.random() < .9]
        for _ in range(r.randint(1, nv)):
            a = r.randrange(nv)
            b = r.choice([r.randrange(nv), (a + 64) % nv, (a + 63) % nv, (a + 1) % nv, nv - 1 - a])
            if a != b: es.append((a, b, r.choice([-3, -2, -1, 1, 2, 3, 5, -5])))
        if nv > 250:
            # every place beyond a byte matters
            es += [(b, a, r.choice([-5, 5])) if r.random() < .5 else (a, b, r.choice([-5, 5]))
                   for b in range(253, nv) for a in r.sample(range(nv), 6) if a != b]
        if r.random() < .15:
            # a hub
            a = r.randrange(nv)
            es += [(a, b, r.choice([-1, 1])) if r.random() < .5 else (b, a, r.choice([-1, 1])) for b in range(nv) if b != a]
        init = [r.randint(0, 1) for _ in range(nv)]
        sp = int(r.random() < .3)
        if cold or r.random() < .5: us, ts = "0.5", [-1] * 3
        else: us, ts = r.choice(["0.5", "0.05"]), sorted((r.randint(0, 8) for _ in range(3)), reverse=True)
        out.append("kind=sweeps id=%s_%d ty=%s n=%d m=%s sparse=%d init=%s us=%s ts=%s sw=%d" % (
            tag, len(out), types_for(r, nv, es, 1)[0], nv, edges(es), sp, ",".join(map(str, init)), us,
            ",".join(map(str, ts)), r.choice([1, 2])))
    return out


CAPACITY = {"i16": (15, [8, 10]), "i32": (31, [16, 20, 25]), "i64": (63, [20, 33, 45, 54, 56]),
            "i128": (127, [20, 33, 54, 70, 100, 118]), "f32": (24, [14, 18]), "f64": (53, [25, 33, 45])}


def bigsweeps(r, n, tag):
    """Changes that are tiny beside the weights they are made of."""
    out = []
    while len(out) < n:
        ty = r.choice(["i16", "i32", "i64", "i64", "i128", "i128", "f32", "f64", "f64"])
        cap, shs = CAPACITY[ty]
        sh = r.choice(shs)
        nv = r.choice([1, 2, 2, 3, 3, 4, 5, 6])
        bm = r.choice([1, 1, 2])
        es = []
        for a in range(nv):
            for b in range(a, nv):
                k = r.random()
                if k < .35: es.append((a, b, r.randint(-2, 2), r.randint(-bm, bm)))
                elif k < .5: es.append((b, a, r.randint(-3, 3), 0))
                elif k < .75: es.append((a, b, r.choice([-1, 1]), r.choice([-1, 1]) * bm))
        if r.random() < .5:
            # the large parts cancel
            es = [(a, b, lo, hi if a == b else 0) for a, b, lo, hi in es]
            for a in range(nv - 1): es += [(a, a, r.choice([-1, 0, 1]), -1), (a, a + 1, r.choice([-1, 0, 1]), 1)]
        r.shuffle(es)
        tot = sum(abs(lo) for _, _, lo, _ in es), sum(abs(hi) for _, _, _, hi in es)
        if tot[0] * 8 > 1 << sh or ((tot[0] + (tot[1] << sh)) * 4) >> cap: continue
        sp, m = int(r.random() < .3), nv
        if sp:
            q = sorted(r.sample(range(nv + r.choice([0, 2, 5])), nv))
            es = [(q[a], q[b], lo, hi) for a, b, lo, hi in es]
            m = max([max(a, b) for a, b, _, _ in es], default=-1) + 1
        out.append("kind=bigsweeps id=%s_%d ty=%s sh=%d n=%d m=%s sparse=%d init=%s k=%d sw=%d" % (
            tag, len(out), ty, sh, m, ",".join("%d:%d:%d:%d" % e for e in es), sp,
            ",".join(str(r.randint(0, 1)) for _ in range(m)), r.choice([2, 4, 6]), r.choice([1, 1, 2])))
    return out


def gen(tag, k, ty, n, es, what, us, init=(0,), sw=30, count=100, sp=0, extra=""):
    return "kind=gen id=%s_%d ty=%s n=%d m=%s what=%s us=%s init=%s sw=%d count=%d sparse=%d%s" % (
        tag, k, ",".join(ty), n, edges(es), what, us, ",".join(map(str, init)), sw, count, sp,
        " " + extra if extra else "")


def initbytes(r): return [r.randrange(256) for _ in range(r.choice([1, 3, 8]))]


def zero(r, n, tag):
    out = []
    while len(out) < n:
        if r.random() < .5:
            nv = r.choice([3, 10, 20, 40])
            es = [(j, j, 1 if j < nv - 1 else -1) for j in range(nv)] + [(j, j + 1, -2) for j in range(nv - 1)]
            init = [0]
            sp = 0
        else:
            nv = r.choice([0, 1, 2, 4, 6])
            es = model(r, nv); init = initbytes(r)
            sp = int(r.random() < .3)
            if sp: es, nv = sparse_n(r, es, nv)
        tys = types_for(r, nv, es)
        out.append(gen(tag, len(out), tys, nv, es, "zero", "0.99999999", init,
                       r.choice([0, 1, 1, 2, 3, 5]), r.choice([0, 1, 2, 3, 4, 7]), sp))
    return out


def hot(r, n, tag):
    out = []
    while len(out) < n:
        nv = r.choice([0, 1, 2, 3, 5, 8, 12])
        es = model(r, nv); sp = int(r.random() < .3)
        if sp: es, nv = sparse_n(r, es, nv)
        unit = 1
        tys = types_for(r, nv, es)
        if r.random() < .2: tys, unit = r.sample(["f64", "f32"], r.choice([1, 2])), r.choice([4, 16, 1024, 1 << 20, 1 << 40])
        elif not sp and r.random() < .25:
            nv = r.choice([2, 2, 3, 4, 6])
            tys = [r.choice(["i8", "i8", "i16"])]
            es = tight(r, nv, tys[0])
            if es is None: continue
        out.append(gen(tag, len(out), tys, nv, es, "hot", r.choice(["0.49", "0.499", "0.4999"]), initbytes(r), 1, 1, sp,
                       "unit=%d" % unit))
    return out


def cold(r, n, tag):
    out = []
    while len(out) < n:
        nv = r.choice([0, 1, 2, 3, 4, 5, 6])
        g = r.choice([1, 1, 2, 3, 7])
        es = model(r, nv, mag=r.choice([1, 2, 4]), mult=g)
        h, J = coeffs(nv, es)
        ws = [abs(x) for x in h + list(J.values()) if x]
        if ws and min(ws) != g: continue
        sp = int(r.random() < .3)
        if sp: es, nv = sparse_n(r, es, nv)
        if nv > 7: continue
        unit = 1
        tys = types_for(r, nv, es)
        if r.random() < .2: tys, unit = r.sample(["f64", "f32"], r.choice([1, 2])), r.choice([4, 16, 1024, 1 << 20, 1 << 40])
        elif not sp and r.random() < .2:
            # one big step: all weights are its multiples
            nv, tys = r.choice([2, 3, 4]), [r.choice(["i8", "i8", "i16"])]
            g = r.choice([1, 3, 10, 25, 60])
            es = [(a, b, int(w / g) * g) for a, b, w in tight(r, nv, tys[0]) or [] if abs(w) >= g]
            h, J = coeffs(nv, es)
            ws = [abs(x) for x in h + list(J.values()) if x]
            if not ws or min(ws) != g or spread(nv, es) <= TOP[tys[0]]: continue
        out.append(gen(tag, len(out), tys, nv, es, "cold", "0.0101", initbytes(r), r.choice([1, 2, 3]),
                       r.choice([2, 2, 3, 5]), sp, "unit=%d" % unit))
    return out


def opt(r, n, tag):
    out = []
    while len(out) < n:
        nv = r.choice([0, 1, 1, 2, 3, 5, 9, 17, 33, 64])
        if r.random() < .04: nv = r.choice([65, 65, 100, 129])
        ty = r.choice(ALL)
        top = {"i8": 100, "i16": 15000, "f32": 100000}.get(ty, 1000000)
        es = []
        for a in range(nv):
            k = r.random()
            w = r.randint(1, 9) if k < .5 else r.randint(1, top) if k < .8 else r.choice([0, 1, top])
            es.append((a, a, w * r.choice([-1, 1])))
        sp = int(r.random() < .2)
        if sp: es, nv = sparse_n(r, es, nv)
        extra, sw, count = ("def=1", 30, 100) if r.random() < .3 else ("", r.choice([1, 2, 30]), r.choice([2, 3, 10, 100]))
        if nv > 64: extra, sw, count = "", r.choice([1, 2]), r.choice([2, 3, 10])
        u = r.choice(["0.0101", "0.02", "0.5", "0.99999999"])
        if ty[0] == "f": extra += " unit=%d" % r.choice([1, 1, 8, 512])
        out.append(gen(tag, len(out), [ty], nv, es, "opt", u, initbytes(r), sw, count, sp, extra.strip()))
    return out


def det(r, n, tag):
    out = []
    while len(out) < n:
        nv = r.choice([1, 2, 4, 6, 8, 12])
        es = model(r, nv)
        sp = int(r.random() < .25)
        if sp: es, nv = sparse_n(r, es, nv)
        tys = types_for(r, nv, es, r.choice([2, 3, 7]))
        extra = "seed=%d rep=2" % r.randrange(1 << 30)
        k = r.random()
        if not sp and r.random() < .1:
            nv, ty = r.choice([2, 3, 5]), r.choice(["i8", "i16"])
            es = tight(r, nv, ty)
            if es is None: continue
            tys = r.sample(["f64", "f32", "i16", "i32", "i64", "i128"], 2) + [ty]
            tys, k = list(dict.fromkeys(tys)), .1      # a given range
            if ty == "i16" and "i8" in tys: tys.remove("i8")
        if k < .35:
            a, b = r.choice([(1, 2), (1, 4), (2, 1), (1, 1), (3, 9)])
            extra += " beta=range b0=%d b1=%d" % (a, b)
        elif k < .6:
            tys = ["f64", "f32"]
            a, b = r.choice([(1, 8), (1, 64), (2, 16), (8, 1), (1, 1)])
            extra += " beta=range b0=%d b1=%d bunit=%d" % (a, b, r.choice([4, 16, 64]))
        elif k < .7:
            extra += " beta=schedule bs=%s" % ",".join(str(r.randint(1, 3)) for _ in range(r.choice([1, 2, 3])))
        out.append(gen(tag, len(out), tys, nv, es, "det", "-1", initbytes(r), r.choice([1, 2, 4]),
                       r.choice([1, 2, 3, 6]), sp, extra))
    return out


def thermo(r, n, tag):
    out = []
    while len(out) < n:
        a, b = r.choice([600, 1000, 1500, 2000, 4000, 7000, 12000]), r.choice([600, 1000, 1500, 2000, 4000, 7000, 12000])
        k = r.random()
        if k < .06:
            out.append("kind=thermo id=%s_%d beta=range count=%d b0=%d b1=%d bunit=1000 prec=1000 lo=0.4 hi=16 res=1.04" % (
                tag, len(out), r.choice([9, 12, 16, 17, 20, 33]), a, b))
            continue
        if k < .16:
            a, b = r.choice([(30, 30000), (30000, 30), (300, 30000), (45, 3000), (24000, 240)])
            out.append("kind=thermo id=%s_%d beta=range count=%d b0=%d b1=%d bunit=300 prec=300 lo=0.05 hi=140 res=1.05" % (
                tag, len(out), r.choice([1, 2, 3, 4, 6]), a, b))
            continue
        if r.random() < .65:
            s = "beta=range count=%d b0=%d b1=%d" % (r.choice([1, 1, 2, 2, 3, 4, 5, 7]), a, b)
        else:
            bs = [r.choice([600, 1000, 1100, 2500, 4000, 8000, 12000]) for _ in range(r.choice([1, 2, 3, 4, 5]))]
            s = "beta=schedule count=%d bs=%s" % (len(bs), ",".join(map(str, bs)))
        out.append("kind=thermo id=%s_%d %s bunit=1000 prec=1000 lo=0.4 hi=16 res=1.02" % (tag, len(out), s))
    return out


def starts(r, n, tag="c26"):
    out = []
    while len(out) < n:
        nv = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 24, 31, 32, 33, 48, 63, 64, 65, 66, 72, 96, 128, 130, 200, 257, 300])
        ty = r.choice(ALL)
        via = r.choice(["state", "schedule", "schedule", "sweeps"])
        es = model(r, nv, mag=1 if ty == "i8" else None, dens=min(.5, 6 / nv))
        sp = via != "state" and r.random() < .4
        if sp:
            es, nv = sparse_n(r, es, nv)
            if nv < 1: continue
        runs = 4096 if via == "state" or nv <= 24 else 1024 if nv <= 72 else 256
        out.append("kind=starts id=%s_%d ty=%s n=%d sparse=%d via=%s anew=%d seed=%d runs=%d m=%s" % (
            tag, len(out), ty, nv, sp, via, r.randint(0, 1), r.randrange(1 << 30), runs,
            ",".join("%d:%d:%d" % e for e in es)))
    return out


def prog_c26(r, n): return starts(r, n)


def separable(r, n, tag):
    out = []
    while len(out) < n:
        ty = r.choice(ALL)
        nv = r.choice([0, 1, 1, 2, 3, 5, 10, 20])
        if r.random() < .02: nv = r.choice([33, 65, 66])
        top = {"i8": 9, "i16": 900, "f32": 20000}.get(ty, 1000000)
        ws = []
        for _ in range(nv):
            k = r.random()
            w = r.randint(1, 9) if k < .5 else r.randint(1, top) if k < .85 else 0
            if ty == "i8": w = min(w, 3)
            ws.append(w * r.choice([-1, 1]))
        if ty == "i8" and sum(map(abs, ws)) > 40: continue
        if ty == "i16" and sum(map(abs, ws)) > 5000: continue
        spins = [r.randint(0, 1) for _ in ws]
        out.append("kind=separable id=%s_%d ty=%s ws=%s spins=%s c=%d unit=%d" % (
            tag, len(out), ty, ",".join(map(str, ws)), ",".join(map(str, spins)), r.randint(-9, 9),
            r.choice([1, 4]) if ty[0] == "f" else 1))
    return out


def prog_big12(r, n): return bigsweeps(r, n, "c12b")


def prog_c12(r, n):
    return (sweeps(r, n - n // 5 - n // 25, "c12", cold=True) + zero(r, n // 5, "c12z")
            + wide(r, n // 25, "c12w", cold=True) + bigsweeps(r, n // 4, "c12b"))
def prog_c13(r, n):
    return sweeps(r, n - n // 8 - n // 40, "c13", coins=True) + zero(r, n // 8, "c13z") + wide(r, n // 40, "c13w") + bigsweeps(r, n // 10, "c13b")
def prog_c14(r, n):
    k = n // 5
    return hot(r, k, "c14h") + cold(r, k, "c14c") + zero(r, k, "c14z") + opt(r, k, "c14o") + thermo(r, k // 2, "c14t")
def prog_c15(r, n): return sweeps(r, n // 2, "c15s", types=True, coins=True) + det(r, n - n // 2, "c15d") + bigsweeps(r, n // 5, "c15b")
def prog_c21(r, n): return opt(r, n - n // 3, "c21o") + separable(r, n // 3, "c21s")
