"""Scenario generator for whole solves with a scripted sampler."""
from gensession import build, digits, labels, vrs, show, totdeg, walk, nested_bad, TYPES


def values(e, nv, u=1):
    """Objective and per-label tables (numbers of points, all weights one)."""
    import itertools
    def main(n, x, w):
        t = n[0]
        if t == "num": return n[1]
        if t == "bin": return u * x[n[1]]
        if t == "spin": return u * (2 * x[n[1]] - 1)
        if t == "con": return w.get(n[1], 0) * main(n[2], x, w)
        if t == "pen": return main(n[1], x, w)
        a, b = main(n[1], x, w), main(n[2], x, w)
        return a + b if t == "add" else a * b // u
    def pens(n, x, w):
        t = n[0]
        if t == "con": return pens(n[2], x, w)
        if t == "pen": return pens(n[1], x, w) + pens(n[2], x, w) + main(n[2], x, w)
        if t in ("add", "mul"): return pens(n[1], x, w) + pens(n[2], x, w)
        return 0
    def val(x, w): return main(e, x, w) + pens(e, x, w)
    L = sorted(labels(e))
    pts = list(itertools.product((0, 1), repeat=nv))
    V = [val(x, {}) for x in pts]
    C = {l: [val(x, {l: 1}) - v for x, v in zip(pts, V)] for l in L}
    both = all(val(x, {l: 1 for l in L}) == v + sum(C[l][k] for l in L)
               for k, (x, v) in enumerate(zip(pts, V)))
    return V, C, both


def objective(r, nv, deg3, u=1):
    q = (lambda k: k * r.choice([16, 8, 4, 1])) if u > 1 else (lambda k: k)
    ops = [("num", q(r.randint(-5, 5)))]
    for _ in range(r.choice([1, 2, 3, 4, 5])):
        k = min(nv, r.choice([1, 1, 2, 2, 3] if deg3 else [1, 1, 2, 2]))
        vs = r.sample(range(nv), k)
        for i, v in enumerate(vs):
            ops.append((r.choice(["bin", "bin", "spin"]), v))
            if i: ops.append(("mul",))
        ops += [("muln", q(r.choice([-7, -4, -3, -2, -1, 1, 2, 3, 5, 9]))), ("add",)]
    return ops


def constraint(r, nv, lab, u=1):
    k = r.random()
    vs = r.sample(range(nv), min(nv, r.choice([1, 2, 2, 3])))
    ops = [("bin", vs[0])]
    if k < .5:
        for v in vs[1:]: ops += [(r.choice(["bin", "bin", "spin"]), v), (r.choice(["add", "add", "sub"]),)]
        ops += [("subn", u * r.choice([0, 1, 1, 1, 2])), ("pow", 2)]
    elif k < .7 and len(vs) > 1:
        ops += [("bin", vs[1]), ("mul",)]
    elif k < .85:
        for v in vs[1:]: ops += [("bin", v), ("add",)]
        ops += [("subn", u)]            # may be negative
    elif k < .95:
        ops = [("spin", vs[0]), ("addn", u * r.choice([-1, 1]))]
    else:
        ops += [("subn", 0)]
    return ops + [("con", lab)]


def solve(r, n, tag, errs=False, many=False):
    out = []
    while len(out) < n:
        ty = r.choice(["f64", "f64", "f64", "i32", "i64", "f32", "i32", "i16", "i128"])
        nv = r.choice([1, 2, 2, 3, 3, 3, 4])
        nl = r.choice([0, 1, 1, 2, 2, 3, 3, 3, 4])
        if r.random() < .12: nl = r.choice([5, 8, 12] if ty[0] == "f" else [5, 6])
        deg3 = r.random() < .12 and ty not in ("i16",)
        u = 16 if ty[0] == "f" and r.random() < .3 else 1
        ops = objective(r, nv, deg3, u)
        for l in range(nl):
            for rep in range(1 + (r.random() < .15)):
                ops += constraint(r, nv, l, u)
                if r.random() < .35: ops.append(("muln", u * r.choice([1, 2, 3])))
                if r.random() < .05: ops += [("bin", r.randrange(nv)), ("mul",)]
                if r.random() < .08:
                    # part of a penalty
                    ops += [("pen",)]
                else:
                    ops += [(r.choice(["add", "add", "adda", "radd"]),)]
        e = build(ops, u)
        if e is None or nested_bad(e) or u > 1 and any(digits(k, u) > 4 for k in walk(e)): continue
        d = totdeg(e)
        if d > (3 if deg3 else 2): continue
        V, C, affine = values(e, nv, u)
        if not affine: continue
        L = sorted(labels(e))
        if any(not any(C[l]) for l in L): continue      # weight never shows
        it, gen = r.choice([1, 1, 2, 3]), r.choice([1, 2, 4, 6, 8])
        if r.random() < .1: gen = r.choice([15, 25, 40])
        elif r.random() < .04: it = r.choice([5, 7, 10, 12])
        crowd = many and r.random() < .06
        if crowd: it, gen = r.choice([1, 2]), r.choice([1, 2, 3])
        strength = r.choice([50, 50, 50, 1, 7, 20, 100, 30, 3, 12, 33, 0, 500])
        sunit = 1 if ty[0] == "i" else r.choice([1, 1, 2, 4])
        occ = sum(1 for x in walk(e) if x[0] == "con")
        size = 10 * max(nl, 1) + gen * occ
        top = max(map(abs, V)) + 1
        wmax = max(strength, 3)
        for l in L: top += wmax * max(map(abs, C[l]))
        if top * size * sunit > 1_000_000 * u: continue
        if ty == "i16" and top > 8000: continue
        if top > 20000 * u: continue
        samples = r.choice([1, 2, 3, 4, 8] if not many else [2, 4, 8, 16, 32])
        if crowd: samples = r.choice([33, 64, 65, 66, 100, 129, 257, 300])
        mode = r.choice(["mix", "mix", "mix", "desc", "desc", "rand", "worst", "best", "fix"])
        s = ("kind=solve id=%s_%d ty=%s nv=%d nl=%d it=%d gen=%d samples=%d strength=%d sunit=%d mode=%s seed=%d multi=%d ops=%s"
             % (tag, len(out), ty, max(vrs(e) | {0}) + 1, len(L), it, gen, samples, strength, sunit, mode,
                r.randrange(1 << 30), r.choice([1, 1, 2, 3]), ";".join(show(o) for o in ops)))
        if u > 1: s += " unit=16 K=1024"
        if mode == "fix":
            s += " fix=" + ",".join(str(r.randrange(1 << nv)) for _ in range(r.choice([1, 2, 3, 5])))
        if not crowd and (r.random() < .3 or many): s += " delay=%d" % r.choice([50, 300, 1000])
        if r.random() < .25 or errs: s += " rep=%d" % r.choice([2, 2, 3])
        if r.random() < .35: s += " pre=1"
        if errs and r.random() < .8:
            tot = it * gen
            if r.random() < .6:
                s += " err=" + ",".join("%d:%d:%d" % (r.randrange(min(tot, 3)), r.choice([-1] + list(range(samples))),
                                                      r.randrange(1, 100)) for _ in range(r.choice([1, 1, 2, 4])))
            else:
                s += " gerr=" + ",".join("%d:%d:%d" % (r.randrange(min(tot, 3)), r.randrange(samples),
                                                       r.randrange(1, 100)) for _ in range(r.choice([1, 2])))
        out.append(s)
    return out


def large(r, n, tag):
    """Energies that differ by little in relation to their size."""
    out = []
    while len(out) < n:
        base = r.choice([1 << 24, 1 << 25, 10**8, 2 * 10**8, (1 << 27) + 1])
        ty = r.choice(["i64", "i128", "f64", "i32"])
        nv = r.choice([2, 2, 3])
        if ty == "f64": base = min(base, 10**8)
        ops = [("num", r.choice([0, 0, 1, base, -base]))]
        for v in range(nv):
            ops += [("bin", v), ("muln", r.choice([1, 1, -1]) * (base + r.randint(-3, 3))), ("add",)]
        if r.random() < .4:
            ops += [("bin", 0), ("bin", 1), ("mul",), ("muln", r.choice([1, -1]) * (base + r.randint(-2, 2))), ("add",)]
        nl = r.choice([0, 0, 1])
        if nl: ops += constraint(r, nv, 0) + [("add",)]
        e = build(ops, 1)
        if e is None or totdeg(e) > 2: continue
        V, C, affine = values(e, nv)
        if not affine or nl and not any(C[0]): continue
        if max(map(abs, V)) + 60 * max([abs(x) for l in C for x in C[l]] + [0]) > 9 * 10**8: continue
        if nl and ty == "f64": continue
        samples = r.choice([1, 2, 3, 4])
        out.append("kind=solve id=%s_%d ty=%s nv=%d nl=%d it=%d gen=%d samples=%d strength=%d sunit=1 mode=%s seed=%d"
                   " multi=%d exact=1 K=1 ops=%s" % (
                       tag, len(out), ty, nv, nl, r.choice([1, 2]), r.choice([1, 2, 4]), samples, r.choice([1, 7, 50]),
                       r.choice(["rand", "rand", "mix", "desc"]), r.randrange(1 << 30), r.choice([1, 2, 4]),
                       ";".join(show(o) for o in ops)))
    return out


def reduced(r, n, tag):
    """Cubic terms that share a pair: the pair gets a variable of its own, and the
    samplers often answer with that variable set wrongly."""
    out = []
    while len(out) < n:
        ty = r.choice(["f64", "f64", "f32", "i32", "i64", "i128"])
        nv = r.choice([3, 4, 4])
        ops = [("num", r.randint(-3, 3))]
        a, b = r.sample(range(nv), 2)
        rest = [v for v in range(nv) if v not in (a, b)]
        terms = [(a, b, v) for v in rest] + ([r.sample(range(nv), 3)] if r.random() < .3 else [])
        for t in terms:
            ops += [("bin", t[0]), ("bin", t[1]), ("mul",), (r.choice(["bin", "bin", "spin"]), t[2]), ("mul",),
                    ("muln", r.choice([-3, -2, -1, 1, 2, 3])), ("add",)]
        for _ in range(r.choice([0, 1, 2])):
            ops += [("bin", r.randrange(nv)), ("muln", r.choice([-4, -2, -1, 1, 2, 4])), ("add",)]
        nl = r.choice([0, 1, 1, 1, 2])
        for l in range(nl):
            vs = r.sample(range(nv), r.choice([1, 1, 2]))
            if len(vs) == 1: ops += [("bin", vs[0])]
            else: ops += [("bin", vs[0]), ("bin", vs[1])] + r.choice([[("mul",)], [("sub",), ("pow", 2)]])
            ops += [("con", l), ("add",)]
        e = build(ops, 1)
        if e is None or totdeg(e) > 3: continue
        V, C, affine = values(e, nv)
        L = sorted(labels(e))
        if not affine or any(not any(C[l]) for l in L): continue
        it, gen = r.choice([1, 1, 2]), r.choice([1, 2, 3, 4])
        strength = r.choice([50, 20, 7, 3, 1])
        top = max(map(abs, V)) + 1 + sum(max(strength, 3) * max(map(abs, C[l])) for l in L)
        if top * (10 * max(nl, 1) + gen * 4) > 1_000_000: continue
        out.append("kind=solve id=%s_%d ty=%s nv=%d nl=%d it=%d gen=%d samples=%d strength=%d sunit=1 mode=%s seed=%d multi=%d"
                   " pre=%d ops=%s" % (
                       tag, len(out), ty, max(vrs(e) | {0}) + 1, len(L), it, gen, r.choice([1, 1, 2, 3]), strength,
                       r.choice(["rand", "rand", "rand", "mix", "worst", "desc"]), r.randrange(1 << 30), r.choice([1, 1, 2]),
                       r.randint(0, 1), ";".join(show(o) for o in ops)))
    return out


def edge(r, n, tag):
    """Energies up to the highest number of the type, which the samplers report
    before they report anything lower, or always."""
    out = []
    while len(out) < n:
        ty = r.choice(["i8", "i8", "i16"])
        top = {"i8": 127, "i16": 32767}[ty]
        nv = r.choice([1, 2, 2, 3])
        strength = r.choice([50, 20, 1, 7])
        con = r.randrange(nv)
        left = top - strength
        ws = [0] * nv
        for v in range(nv - 1): ws[v] = r.randint(0, left); left -= ws[v]
        ws[nv - 1] = left
        r.shuffle(ws)
        ops = [("bin", con), ("con", 0)]
        for v in range(nv): ops += [("bin", v), ("muln", ws[v]), ("add",)]
        full = (1 << nv) - 1
        fix = [full] * r.choice([1, 1, 2, 3])
        if r.random() < .5: fix += [r.randrange(full + 1) for _ in range(r.choice([1, 2]))]
        out.append("kind=solve id=%s_%d ty=%s nv=%d nl=1 it=%d gen=%d samples=%d strength=%d sunit=1 mode=fix fix=%s seed=%d"
                   " multi=%d pre=%d exact=1 K=1 ops=%s" % (
                       tag, len(out), ty, nv, r.choice([1, 2]), r.choice([1, 2, 3]), r.choice([1, 2, 3]), strength,
                       ",".join(map(str, fix)), r.randrange(1 << 30), r.choice([1, 2]), r.randint(0, 1),
                       ";".join(show(o) for o in ops)))
    return out


def prog_c25(r, n):
    out = []
    for s in solve(r, n, "c25", many=True):
        if " rep=" not in s and r.random() < .6: s += " rep=%d" % r.choice([2, 3])
        out.append(s)
    return out


def prog_c08(r, n): return solve(r, n, "c08") + reduced(r, n // 10, "c08r")
def prog_c09(r, n): return solve(r, n - n // 8, "c09") + large(r, n // 8, "c09l") + reduced(r, n // 6, "c09r") + edge(r, n // 16, "c09e")
def prog_c10(r, n): return solve(r, n, "c10s") + reduced(r, n // 10, "c10r")
def prog_c11(r, n): return solve(r, n // 2, "c11e", errs=True) + solve(r, n - n // 2, "c11m", many=True)
def prog_c06(r, n): return solve(r, n, "c06s") + reduced(r, n // 4, "c06r")
