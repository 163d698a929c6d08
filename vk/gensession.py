"""Scenario generator for programs: random expression trees built with every
public constructor and operator, with bounds that keep all numbers exact."""
import random

LIM = {"i8": 100, "i16": 20000, "i32": 10**6, "i64": 10**6, "i128": 10**6,
       "f32": 4000, "f64": 10**6}
LIM_HI = {"i8": 0, "i16": 0, "i32": 3000, "i64": 50000, "i128": 50000,
          "f32": 300, "f64": 50000}
TYPES = ["i8", "i16", "i32", "i64", "i128", "f32", "f64"]


def leaf(e): return e[0] in ("bin", "spin", "num", "ph", "big")


def kids(e):
    if leaf(e): return ()
    if e[0] == "con": return (e[2],)
    return e[1:]


def walk(e):
    yield e
    for k in kids(e):
        yield from walk(k)


def size(e): return sum(1 for _ in walk(e))
def labels(e): return {n[1] for n in walk(e) if n[0] == "con"}
def phs(e): return {n[1] for n in walk(e) if n[0] == "ph"}
def vrs(e): return {n[1] for n in walk(e) if n[0] in ("bin", "spin")}
def has(e, *tags): return any(n[0] in tags for n in walk(e))


def nested_bad(e):
    """A constraint or penalty inside a constraint is refused by the library."""
    return any(n[0] == "con" and has(n[2], "con", "pen") for n in walk(e))


def deg(e):
    if e[0] in ("bin", "spin"): return 1
    if leaf(e): return 0
    if e[0] == "con": return deg(e[2])
    if e[0] == "pen": return deg(e[1])
    if e[0] == "add": return max(deg(e[1]), deg(e[2]))
    d = deg(e[1]) + deg(e[2])
    return d if d <= 2 else min(d, max(2, len(vrs(e))))


def totdeg(e):
    return max([deg(e)] + [deg(n[2]) for n in walk(e) if n[0] == "pen"])


def norm(e, u, w, dmax, acc):
    """Bound of the absolute sum of coefficients; acc collects the maximum."""
    t = e[0]
    if t == "num": r = abs(e[1]) or u  # what is multiplied by zero still has to fit
    elif t == "ph": r = dmax
    elif t == "bin": r = u
    elif t == "spin": r = 3 * u
    elif t == "con": r = w * norm(e[2], u, w, dmax, acc)
    elif t == "pen":
        r = norm(e[1], u, w, dmax, acc)
        acc[1] += norm(e[2], u, w, dmax, acc)
    else:
        a, b = norm(e[1], u, w, dmax, acc), norm(e[2], u, w, dmax, acc)
        if t == "mul" and u > 1: acc[0] = max(acc[0], a * b)
        r = a + b if t == "add" else -(-a * b // u)
    acc[0] = max(acc[0], r)
    return r


def bound(e, u, w, dmax):
    acc = [0, 0]
    r = norm(e, u, w, dmax, acc)
    return max(acc[0], r + acc[1])


def spow(e, n, u):
    r = ("num", u)
    for _ in range(n): r = ("mul", r, e)
    return r


def feed(e, d):
    if e[0] == "ph" and e[1] in d: return ("num", d[e[1]])
    if leaf(e): return e
    if e[0] == "con": return ("con", e[1], feed(e[2], d))
    return (e[0],) + tuple(feed(k, d) for k in e[1:])


def strip(e):
    while e[0] == "pen": e = e[1]
    return e


def mapped(f, e):
    t = f[0]
    r = e
    if t == "mapnum" and e[0] in ("bin", "spin") and e[1] == f[1]: r = ("num", f[2])
    elif t == "mapren" and e[0] in ("bin", "spin") and e[1] == f[1]: r = (e[0], f[2])
    elif t == "mapswap" and e[0] == "bin": r = ("spin", e[1])
    elif t == "mapswap" and e[0] == "spin": r = ("bin", e[1])
    elif t == "mapadd" and e[0] == "num": r = ("num", e[1] + f[1])
    elif t == "maplab" and e[0] == "con": r = ("con", e[1] + f[1], e[2])
    elif t == "mapstrip" and e[0] == "pen": r = e[1]
    elif t == "mapstripall": r = strip(e)
    elif t == "mapph" and e[0] == "ph" and e[1] == f[1]: r = ("num", f[2])
    if leaf(r): return r
    if r[0] == "con": return ("con", r[1], mapped(f, r[2]))
    return (r[0],) + tuple(mapped(f, k) for k in r[1:])


def apply(st, op, u):
    t = op[0]
    if t in ("bin", "spin", "ph"): st.append((t, op[1]))
    elif t in ("num", "from"): st.append(("num", op[1]))
    elif t == "big": st.append(op)
    elif t == "zero": st.append(("num", 0))
    elif t == "one": st.append(("num", u))
    elif t == "dup": st.append(st[-1])
    elif t in ("add", "adda", "radd"):
        a = st.pop(); st[-1] = ("add", st[-1], a)
    elif t in ("mul", "mula", "rmul"):
        a = st.pop(); st[-1] = ("mul", st[-1], a)
    elif t in ("sub", "suba"):
        a = st.pop(); st[-1] = ("add", st[-1], ("mul", ("num", -u), a))
    elif t == "neg": st[-1] = ("mul", ("num", -u), st[-1])
    elif t in ("pow", "powa"): st[-1] = spow(st[-1], op[1], u)
    elif t == "con": st[-1] = ("con", op[1], st[-1])
    elif t == "pen":
        a = st.pop(); st[-1] = ("pen", st[-1], a)
    elif t == "feed": st[-1] = feed(st[-1], dict(op[1]))
    elif t in ("addn", "nadd", "addan"): st[-1] = ("add", st[-1], ("num", op[1]))
    elif t in ("subn", "suban"): st[-1] = ("add", st[-1], ("num", -op[1]))
    elif t == "nsub": st[-1] = ("add", ("num", op[1]), ("mul", ("num", -u), st[-1]))
    elif t in ("muln", "nmul", "mulan"): st[-1] = ("mul", st[-1], ("num", op[1]))
    else: st[-1] = mapped(op, st[-1])


def show(op):
    if op[0] == "feed":
        return "feed:" + ",".join("%d/%d" % kv for kv in op[1])
    return ":".join(str(x) for x in op)


def digits(e, u, dk=1):
    """A bound of the binary digits behind the point that a value may have,
    in a unit of u = 16; a value of a placeholder may have dk."""
    t = e[0]
    if t == "num":
        k, n = 0, e[1]
        while n % u: n, k = n * 2, k + 1
        return k
    if t == "ph": return dk
    if leaf(e): return 0
    if t == "con": return digits(e[2], u, dk)
    a, b = digits(e[1], u, dk), digits(e[2], u, dk)
    return a + b if t == "mul" else max(a, b)


class Gen:
    def __init__(self, rng, nv=4, nl=3, nph=0, u=1, maxn=3, pens=False, cons=True,
                 maps=False, feeds=False, pows=True):
        self.r, self.nv, self.nl, self.nph, self.u = rng, nv, nl, nph, u
        self.maxn, self.pens, self.cons, self.maps, self.feeds = maxn, pens, cons, maps, feeds
        self.pows = pows

    def num(self):
        if self.u == 16: return self.r.choice([16, 8, 4, 4, 1]) * self.r.randint(-self.maxn, self.maxn)
        return self.u * self.r.randint(-self.maxn, self.maxn)

    def var(self): return self.r.randrange(self.nv)

    def leafop(self):
        k = self.r.random()
        if self.nph and k < 0.2: return [("ph", self.r.randrange(self.nph))]
        if k < 0.55: return [("bin", self.var())]
        if k < 0.82: return [("spin", self.var())]
        return [self.r.choice([("num", self.num()), ("num", self.num()), ("from", self.num()),
                               ("zero",), ("one",)])]

    def clean(self, depth):
        """No constraints or penalties inside."""
        g = Gen(self.r, self.nv, 0, self.nph, self.u, self.maxn, False, False, self.maps,
                self.feeds, self.pows)
        return g.expr(depth)

    def expr(self, depth):
        r = self.r
        if depth <= 0: return self.leafop()
        k = r.random()
        if k < 0.30:
            op = r.choice(["add", "add", "sub", "adda", "suba", "radd"])
            return self.expr(depth - 1) + self.expr(depth - 1 - r.randrange(2)) + [(op,)]
        if k < 0.50:
            op = r.choice(["mul", "mul", "mula", "rmul"])
            return self.expr(depth - 1) + self.expr(depth - 1 - r.randrange(2)) + [(op,)]
        if k < 0.64:
            op = r.choice(["addn", "subn", "muln", "nadd", "nsub", "nmul", "addan", "suban", "mulan"])
            return self.expr(depth - 1) + [(op, self.num())]
        if k < 0.68: return self.expr(depth - 1) + [("neg",)]
        if k < 0.74 and self.pows:
            return self.expr(depth - 1) + [(r.choice(["pow", "powa"]), r.choice([0, 1, 2, 2, 2, 3]))]
        if k < 0.78: return self.expr(depth - 1) + [("dup",), (r.choice(["add", "mul", "sub"]),)]
        if k < 0.88 and self.cons and self.nl:
            return self.clean(depth - 1) + [("con", r.randrange(self.nl))]
        if k < 0.95 and self.pens:
            return self.expr(depth - 1) + self.expr(depth - 1 - r.randrange(2)) + [("pen",)]
        if k < 0.98 and self.maps:
            return self.expr(depth - 1) + [self.mapop()]
        if k < 0.99 and self.feeds and self.nph:
            return self.expr(depth - 1) + [("feed", tuple((p, self.u * r.randint(0, 3))
                                                          for p in range(self.nph) if r.random() < .5))]
        return self.expr(depth - 1)

    def mapop(self):
        r = self.r
        return r.choice([("mapid",), ("mapnum", self.var(), self.num()), ("mapren", self.var(), self.var()),
                         ("mapswap",), ("mapadd", self.num()), ("maplab", r.randrange(1, 3)),
                         ("mapstripall",)] + ([("mapph", r.randrange(self.nph), self.u * r.randint(0, 3))]
                                              if self.nph else []))


def build(ops, u, most=400):
    st = []
    for k, op in enumerate(ops):
        apply(st, op, u)
        if (k % 20 == 19 or most == 400) and size(st[-1]) > most: return None
    return st[-1]


def line(sid, ty, ops, u=1, w=1, d=None, e=None, cap=18, rets=4, seed=1, twice=0):
    e = e if e is not None else build(ops, u)
    nv = max(vrs(e) | {0}) + 1
    s = "kind=session id=%s ty=%s unit=%d nv=%d nl=%d w=%d cap=%d rets=%d seed=%d ops=%s" % (
        sid, ty, u, nv, len(labels(e)), w, cap, rets, seed, ";".join(show(o) for o in ops))
    if d is not None: s += " cf=" + ",".join("%d/%d" % kv for kv in sorted(d.items()))
    if twice: s += " twice=1"
    return s


def fits(e, ty, u, w, dmax, maxdeg, maxsize=160):
    if e is None or size(e) > maxsize or nested_bad(e): return False
    dg = totdeg(e)
    if dg > maxdeg: return False
    if u == 16 and any(digits(k, u) > 4 for k in walk(e)): return False
    lim = LIM[ty] if dg <= 2 else LIM_HI[ty]
    return bound(e, u, w, dmax) <= lim * (u if u > 1 else 1)


# ---------------------------------------------------------------- profiles

def pick_type(r, hi=False):
    return r.choice(["i32", "i64", "i128", "f32", "f64"] if hi else TYPES)


def unit_for(r, ty, p=.3):
    """Sometimes fractions, where the type has them."""
    return 16 if ty[0] == "f" and r.random() < p else 1


def prog_c01(r, n, tag="c01"):
    out = []
    while len(out) < n:
        ty = pick_type(r)
        u = unit_for(r, ty)
        g = Gen(r, nv=r.choice([1, 2, 2, 3, 4, 6]), nl=2, u=u, maxn=r.choice([1, 2, 3, 9]), maps=False)
        ops = g.expr(r.choice([2, 3, 3, 4, 5]))
        if r.random() < .04:
            # a power of one variable stays linear
            ops = [("bin", 0), (r.choice(["pow", "powa"]), r.choice([3, 4, 5, 8, 9, 16, 17]))] + ops + [(r.choice(["add", "sub"]),)]
        elif r.random() < .06:
            # a high power of a number or of a sum that stays small
            p = r.choice([4, 5, 6, 7, 9, 10, 11])
            b = r.choice([[("num", -u)], [("num", 2 * u if p < 7 else u)], [("bin", 0), ("addn", u if p < 6 else -u)], [("spin", 0)],
                          [("spin", 0), ("neg",)], [("bin", 0), ("neg",)]])
            ops = b + [(r.choice(["pow", "powa"]), p)] + ops + [(r.choice(["add", "sub"]),)]
        e = build(ops, u)
        w = r.choice([1, 1, 2, 3])
        if not fits(e, ty, u, w, 0, 2): continue
        if totdeg(e) == 0 and r.random() < .8: continue
        out.append(line("%s_%d" % (tag, len(out)), ty, ops, u=u, w=w, e=e, seed=r.randrange(1 << 30)))
    return out


def monomial(r, nv, k, coef=None, spinp=0.15, ph=None):
    vs = r.sample(range(nv), k)
    ops = []
    for i, v in enumerate(vs):
        ops.append(("spin" if r.random() < spinp else "bin", v))
        if i: ops.append(("mul",))
    if coef is not None: ops.append((r.choice(["muln", "nmul"]), coef))
    if ph is not None: ops += [("ph", ph), ("mul",)]
    return ops


def prog_c02(r, n, tag="c02"):
    out = []
    while len(out) < n:
        ty = pick_type(r, True)
        k = r.random()
        u = unit_for(r, ty, .25)
        q = (lambda v: v * r.choice([16, 4, 8, 1])) if u == 16 else (lambda v: v)
        qd = (lambda v: v * r.choice([16, 8])) if u == 16 else (lambda v: v)
        d = {}
        if k < 0.45:
            # sums of monomials, all sign patterns, shared subsets
            nv = r.choice([3, 4, 4, 5, 5, 6, 7])
            ops = []
            for j in range(r.choice([1, 1, 2, 2, 3, 3, 4])):
                kk = min(nv, r.choice([3, 3, 3, 4, 4, 5, 6, 7, 1, 2]))
                ph = None
                if r.random() < .2:
                    ph = r.randrange(2); d[ph] = qd(r.randint(0, 3))
                ops += monomial(r, nv, kk, q(r.choice([-3, -2, -1, 1, 2, 3])),
                                spinp=0.1 if kk > 4 else .2, ph=ph)
                if r.random() < .15: ops.append(("con", r.randrange(2)))
                if j: ops.append((r.choice(["add", "sub", "adda"]),))
        elif k < 0.6:
            # coefficients whose sign cannot be told: (p - q) x y z
            nv = r.choice([3, 4, 5])
            ops = [("ph", 0), ("ph", 1), ("sub",)] + monomial(r, nv, 3, spinp=0) + [("mul",)]
            d = {0: qd(r.randint(0, 3)), 1: qd(r.randint(0, 3))}
            if r.random() < .6:
                ops += monomial(r, nv, 3, q(r.choice([-2, -1, 1, 2])), spinp=0) + [("add",)]
            if r.random() < .4:
                ops += monomial(r, nv, r.choice([2, 3]), q(r.choice([-2, -1, 1, 2])), spinp=0) + [("ph", 0), ("mul",), ("add",)]
        elif k < 0.64:
            # long products
            nv = r.choice([8, 9, 10, 11, 12])
            ops = monomial(r, nv, r.choice([nv, nv - 1]), q(r.choice([-2, -1, 1, 2])), spinp=0)
            if r.random() < .5:
                ops += monomial(r, nv, r.choice([1, 2, 3, nv - 2]), q(r.choice([-2, -1, 1, 2])), spinp=0) + [(r.choice(["add", "sub"]),)]
        elif k < 0.75:
            # powers of sums
            nv = r.choice([3, 4])
            ops = [("bin", 0)]
            for v in range(1, nv):
                ops += [(r.choice(["bin", "spin"]), v), (r.choice(["add", "sub"]),)]
            ops += [("subn", u * r.choice([0, 1, 2])), ("pow", r.choice([3, 3, 4]))]
            if r.random() < .4: ops.append(("con", 0))
        else:
            g = Gen(r, nv=r.choice([3, 4, 5]), nl=2, nph=r.choice([0, 0, 2]), u=u, maxn=2, pens=r.random() < .3)
            ops = g.expr(r.choice([3, 4, 5]))
            e = build(ops, u)
            if e is None or totdeg(e) < 3: continue
            d = {p: qd(r.randint(0, 3)) for p in phs(e)}
        e = build(ops, u)
        if e is None: continue
        d = {p: d.get(p, u) for p in phs(e)}
        w = r.choice([1, 2])
        if not fits(e, ty, u, w, 3 * u, 12, 200): continue
        pre = [p for p in d if r.random() < .3]
        if pre:
            ops = ops + [("feed", tuple((p, d[p]) for p in pre))]
            e = build(ops, u)
        out.append(line("%s_%d" % (tag, len(out)), ty, ops, u=u, w=w, e=e,
                        d={p: v for p, v in d.items() if p not in pre},
                        seed=r.randrange(1 << 30), cap=18))
    return out


def onehot(vs, c, lab=None, spin=False):
    ops = [("spin" if spin else "bin", vs[0])]
    for v in vs[1:]: ops += [("spin" if spin else "bin", v), ("add",)]
    ops += [("subn", c), ("pow", 2)]
    if lab is not None: ops.append(("con", lab))
    return ops


def prog_wide(r, n, tag="wide", hi=.25, ph=.4, con=.6):
    """Programs of the size people write: many variables, terms, labels."""
    out = []
    while len(out) < n:
        k = r.random()
        d = {}
        spend = 0
        ops = [("num", r.randint(-3, 3))]
        deg3 = r.random() < hi
        if k < .25:
            # an assignment problem
            g = r.choice([2, 3, 3, 4, 5])
            lab = 0
            for row in range(g):
                for vs in ([row * g + c for c in range(g)], [c * g + row for c in range(g)]):
                    ops += onehot(vs, 1, lab if r.random() < .9 else None); lab += r.choice([0, 1, 1])
                    if r.random() < .2 * ph: ops += [("ph", 0), ("mul",)]; d[0] = r.randint(0, 2)
                    ops.append((r.choice(["add", "add", "adda"]),))
            for _ in range(r.choice([3, 10, 30])):
                ops += monomial(r, g * g, r.choice([1, 2, 2]), r.randint(-3, 3), spinp=0) + [(r.choice(["add", "sub"]),)]
        elif k < .75:
            nv = r.choice([5, 8, 12, 20, 33, 64, 65, 90])
            nt = r.choice([20, 40, 80, 150])
            nl = r.choice([1, 3, 9, 17, 40])
            nph = r.choice([2, 5, 12])
            for _ in range(nt):
                kk = min(nv, r.choice([0, 1, 1, 2, 2, 2]))
                if deg3 and spend < 4 and r.random() < .1: kk, spend = 3, spend + 1
                if kk: ops += monomial(r, nv, kk, r.choice([-2, -1, 1, 2]), spinp=.3 if kk < 3 else 0)
                else: ops.append(("num", r.randint(-2, 2)))
                if r.random() < ph * .5:
                    q = r.randrange(nph); d[q] = r.randint(0, 3)
                    ops += [("ph", q), (r.choice(["mul", "add", "sub", "mula"]),)]
                m = r.random()
                if m < con: ops.append(("con", r.randrange(nl)))
                if r.random() < .1: ops.append(("muln", r.choice([-1, 2, 0])))
                ops.append((r.choice(["add", "add", "sub", "adda", "suba", "radd", "pen" if m < con + .2 else "add"]),))
        elif k < .85:
            # a square of many
            nv = r.choice([6, 9, 12])
            ops += onehot(list(range(nv)), r.choice([0, 1, 2, 3]), r.choice([None, 0]), r.random() < .5) + [("add",)]
        else:
            # a deep chain
            nv = r.choice([3, 6, 70])
            for j in range(r.choice([30, 100, 180])):
                m = r.random()
                if m < .4: ops += [(r.choice(["bin", "spin"]), r.randrange(nv)), (r.choice(["add", "sub", "radd"]),)]
                elif m < .6: ops.append((r.choice(["addn", "subn", "nadd", "nsub"]), r.randint(-2, 2)))
                elif m < .75: ops.append(("neg",))
                elif m < .8 and con: ops = [("bin", r.randrange(nv))] + ops + [("pen",)]
                elif m < .9 and con: ops += [("bin", r.randrange(nv)), ("con", r.randrange(20)), ("add",)]
                elif m < .95: ops += [(r.choice(["muln", "nmul"]), 1)]
                else: ops.append(("pow", 1))
        e = build(ops, 1, 3000)
        if e is None: continue
        ty = pick_type(r, True)
        w = r.choice([1, 1, 2])
        d = {p: d[p] for p in sorted(phs(e))}
        if not fits(e, ty, 1, w, 3, 3 if deg3 else 2, 2500): continue
        pre = [p for p in d if r.random() < r.choice([0, .5])]
        if pre:
            ops = ops + [("feed", tuple((p, d[p]) for p in pre))]
            e = build(ops, 1, 3000)
        out.append(line("%s_%d" % (tag, len(out)), ty, ops, w=w, e=e, d={p: v for p, v in d.items() if p not in pre},
                        seed=r.randrange(1 << 30), cap=14, rets=r.choice([3, 6])))
    return out


def triples(n):
    """Triples of n = 6t + 3 points, no pair in two of them (Bose)."""
    m = n // 3
    h = (m + 1) // 2
    out = [(x, m + x, 2 * m + x) for x in range(m)]
    for x in range(m):
        for y in range(x):
            for k in range(3):
                out.append((k * m + x, k * m + y, (k + 1) % 3 * m + (x + y) * h % m))
    return out


def many(r, n, tag="many"):
    """So many terms above degree two that their auxiliary variables need big numbers."""
    out = []
    while len(out) < n:
        nt = r.choice([3, 5, 9, 17, 17, 18, 33, 34, 65, 66, 100])
        if len(out) % 12 == 5: nt = r.choice([129, 130, 257, 258, 260])
        step = r.choice([3, 3, 2])      # disjoint, or in a chain
        net = None
        if nt > 50 or r.random() < .2:
            k = min(k for k in (9, 15, 21, 27, 33, 39, 45) if len(triples(k)) >= nt)
            net = r.sample(triples(k), nt)
        ops = [("num", r.randint(-2, 2))]
        for j in range(nt):
            k = 3 if net or nt > 20 or r.random() < .8 else r.choice([4, 5])
            vs = list(net[j]) if net else list(range(step * j, step * j + 3)) + [3 * nt + 2 + x for x in r.sample(range(4), k - 3)]
            r.shuffle(vs)
            for i, v in enumerate(vs):
                ops.append(("bin", v))
                if i: ops.append(("mul",))
            ops.append(("muln", r.choice([-3, -2, -1, 1, 2, 3])))
            if r.random() < .05: ops.append(("con", r.randrange(3)))
            ops.append((r.choice(["add", "sub"]),))
        e = build(ops, 1, 4000)
        ty = pick_type(r, True)
        if not fits(e, ty, 1, 1, 1, 5, 4000): continue
        # most of the variables are up, so that the terms show
        out.append(line("%s_%d" % (tag, len(out)), ty, ops, e=e, d={}, seed=r.randrange(1 << 30), cap=14,
                        rets=24 if nt > 100 else 12 if nt > 20 else 6) + " up=%d" % r.choice([2, 2, 4, 4, 8]))
    return out


def prog_c03(r, n, tag="c03"):
    out = []
    while len(out) < n:
        ty = pick_type(r)
        k = r.random()
        if k < .35:
            g = Gen(r, nv=r.choice([1, 2, 3, 5]), nl=2, maxn=1, pens=True)
            ops = g.expr(r.choice([2, 3, 4]))
            # cancellation: e - e, 0 * e, e + 0 * x
            m = r.random()
            if m < .4: ops += [("dup",), ("sub",)]
            elif m < .6: ops += [("muln", 0)]
            elif m < .8: ops += [("bin", 7), ("muln", 0), ("add",)]
        elif k < .6:
            ty = pick_type(r, True)
            nv = r.choice([3, 4, 5, 6])
            ops = []
            for j in range(r.choice([1, 2, 3])):
                ops += monomial(r, nv, min(nv, r.choice([3, 3, 4, 5])), r.choice([-2, -1, 0, 1, 2]), spinp=.2)
                if j: ops.append(("add",))
            if r.random() < .3: ops += [("dup",), ("sub",)]
        elif k < .75:
            # many variables
            nv = r.choice([9, 16, 17, 33, 70])
            ops = [("num", 1)]
            for v in range(nv):
                ops += [(r.choice(["bin", "spin"]), v), (r.choice(["add", "sub"]),)]
            for _ in range(r.choice([0, 3])):
                ops += monomial(r, nv, 2, 1) + [("add",)]
            ty = r.choice(["i32", "i64", "f64", "f32", "i16"])
        else:
            g = Gen(r, nv=r.choice([1, 2, 3, 6]), nl=2, maxn=2, pens=True, maps=True)
            ops = g.expr(r.choice([0, 1, 2, 3, 4]))
        e = build(ops, 1)
        if not fits(e, ty, 1, 1, 0, 6, 500): continue
        out.append(line("%s_%d" % (tag, len(out)), ty, ops, e=e, seed=r.randrange(1 << 30), cap=6, rets=3))
    return out


def prog_c04(r, n, tag="c04", missing=0.0):
    """Placeholders fed before, after, in parts, with extra keys."""
    out = []
    while len(out) < n:
        nph = r.choice([1, 2, 3])
        hi = r.random() < .25
        ty = pick_type(r, hi)
        u = unit_for(r, ty)
        q = (lambda v: v * r.choice([16, 8])) if u == 16 else (lambda v: v)
        g = Gen(r, nv=r.choice([1, 2, 3]), nl=2, nph=nph, u=u, maxn=2, pens=r.random() < .4,
                feeds=r.random() < .3)
        ops = g.expr(r.choice([2, 3, 3, 4]))
        if hi and r.random() < .5:
            # a product whose sign only the fed values decide
            ops = [("bin", 0), ("bin", 1), ("mul",), ("bin", 2), ("mul",)]
            for _ in range(r.choice([1, 1, 2])):
                ops += [("ph", r.randrange(nph)), ("subn", u * r.choice([1, 2, 3]))]
                if r.random() < .3: ops += [("ph", r.randrange(nph)), r.choice([("add",), ("sub",), ("mul",)])]
                ops.append(("mul",))
            if r.random() < .5: ops += [("bin", r.randrange(3)), ("ph", r.randrange(nph)), ("mul",), ("add",)]
        if r.random() < .5:
            ops += g.clean(r.choice([1, 2])) + [("con", r.randrange(2)), ("add",)]
        if r.random() < .2:
            ops += g.clean(1) + [("pen",)]
        e = build(ops, u)
        if e is None or not phs(e): continue
        d = {p: q(r.randint(0, 3)) for p in range(nph)}
        # some values are given before compiling, in one or two steps
        order = list(range(nph)); r.shuffle(order)
        cut = sorted(r.randint(0, nph) for _ in range(2))
        a, b = order[:cut[0]], order[cut[0]:cut[1]]
        if a or r.random() < .2: ops = ops + [("feed", tuple((p, d[p]) for p in a))]
        if b: ops = ops + [("feed", tuple((p, d[p]) for p in b))]
        rest = {p: d[p] for p in order[cut[1]:]}
        if r.random() < .3: rest[9] = 5 * u
        if r.random() < .15: rest.update({p: 7 * u for p in a})   # too late to matter
        e = build(ops, u)
        if missing and r.random() < missing:
            left = sorted(phs(e) & set(rest))
            if left: del rest[r.choice(left)]
        if not fits(e, ty, u, 1, 3 * u, 2 if not hi else 4): continue
        out.append(line("%s_%d" % (tag, len(out)), ty, ops, u=u, d=rest, e=e, w=1,
                        seed=r.randrange(1 << 30), cap=16, twice=int(r.random() < .3)))
    return out


def bnorm(e, T, w, d):
    """Bound of the absolute sum of the coefficients: <<main, penalties>>."""
    t = e[0]
    if t == "num": return abs(e[1]) or 1, 0
    if t == "big": return abs(e[1]) + abs(e[2]) * T, 0
    if t == "ph": return abs(d[e[1]][0]) + abs(d[e[1]][1]) * T, 0
    if t == "bin": return 1, 0
    if t == "spin": return 3, 0
    if t == "con":
        a, p = bnorm(e[2], T, w, d)
        return w * a, p
    (a, p), (b, q) = bnorm(e[1], T, w, d), bnorm(e[2], T, w, d)
    if t == "pen": return a, p + q + b
    return (a + b if t == "add" else a * b), p + q


def bdeg(e, d):
    """Degree in T."""
    t = e[0]
    if t == "big": return int(e[2] != 0)
    if t == "ph": return int(d[e[1]][1] != 0)
    if leaf(e): return 0
    if t == "con": return bdeg(e[2], d)
    a, b = bdeg(e[1], d), bdeg(e[2], d)
    return a + b if t == "mul" else max(a, b)


CAPACITY = {"i16": (15, [8, 10]), "i32": (31, [16, 20, 25]), "i64": (63, [20, 33, 45, 54, 58]),
            "i128": (127, [20, 33, 54, 70, 100, 120]), "f32": (24, [14, 18]), "f64": (53, [25, 33, 45])}


def prog_big(r, n, tag="big"):
    out = []
    while len(out) < n:
        ty = r.choice(["i16", "i32", "i64", "i64", "i64", "i128", "i128", "i128", "f32", "f64", "f64"])
        cap, shs = CAPACITY[ty]
        sh = r.choice(shs)
        T = 1 << sh
        nv = r.choice([1, 2, 2, 3, 3, 4])
        hm = r.choice([1, 1, 2, 3])
        d = {}

        def big():
            return ("big", r.randint(-3, 3), r.choice([-1, 1]) * r.randint(1, hm))
        ops = []
        for j in range(r.choice([1, 2, 3, 4, 5])):
            g = Gen(r, nv=nv, nl=0, maxn=2, cons=False)
            k = r.random()
            if k < .45:
                ops += monomial(r, nv, min(nv, r.choice([0, 1, 1, 2, 2])) or 1, None) + [big(), (r.choice(["mul", "mula", "rmul"]),)]
            elif k < .6: ops += [big()]
            elif k < .7: ops += g.expr(2)
            elif k < .8:
                p = r.randrange(2)
                d[p] = (r.randint(0, 3), r.randint(0, hm))
                ops += [("ph", p)] + g.leafop() + [("mul",)]
            else:
                ops += g.expr(1) + [big(), (r.choice(["mul", "add", "sub"]),)]
                if r.random() < .5: ops.append((r.choice(["muln", "nmul", "addn", "nsub"]), r.randint(-2, 2)))
            m = r.random()
            if m < .25: ops.append(("con", r.randrange(2)))
            elif m < .35: ops.append(("neg",))
            elif m < .4: ops.append(("pow", r.choice([0, 1])))
            if j: ops.append((r.choice(["add", "add", "sub", "adda", "suba", "radd", "pen"]),))
        e = build(ops, 1)
        if e is None or nested_bad(e) or totdeg(e) > 2 or not vrs(e): continue
        d = {p: d[p] for p in phs(e)}
        w = r.choice([1, 1, 2])
        if bdeg(e, d) > 1 or any(n[0] == "pen" and bdeg(n[2], d) > 1 for n in walk(e)): continue
        lo, hi = sum(bnorm(e, 0, w, d)), sum(bnorm(e, T, w, d))
        if lo * 4 > min(T, 1 << 28) or hi * 2 >= 1 << cap: continue
        out.append("kind=big id=%s_%d ty=%s sh=%d nv=%d nl=%d w=%d seed=%d ops=%s cf=%s" % (
            tag, len(out), ty, sh, max(vrs(e)) + 1, len(labels(e)), w, r.randrange(1 << 30),
            ";".join(show(o) for o in ops), ",".join("%d/%d/%d" % (p, a, b) for p, (a, b) in sorted(d.items()))))
    return out


def prog_c05(r, n, tag="c05"):
    out = prog_c04(r, n * 2 // 3, tag, missing=.8)
    # the placeholder hides where it cannot matter
    hid = [
        [("ph", 0), ("muln", 0)],
        [("ph", 0), ("dup",), ("sub",)],
        [("bin", 0), ("ph", 0), ("muln", 0), ("add",)],
        [("bin", 0), ("ph", 0), ("con", 0), ("add",)],
        [("bin", 0), ("ph", 0), ("pen",)],
        [("bin", 0), ("bin", 1), ("ph", 0), ("mul",), ("con", 1), ("pen",)],
        [("bin", 0), ("bin", 1), ("mul",), ("bin", 2), ("mul",), ("ph", 0), ("mul",)],
        [("ph", 0), ("ph", 1), ("sub",), ("bin", 0), ("bin", 1), ("mul",), ("bin", 2), ("mul",), ("mul",)],
        [("ph", 0), ("bin", 0), ("mul",), ("pow", 2)],
        [("ph", 1), ("ph", 0), ("mul",), ("bin", 0), ("add",)],
        [("bin", 0), ("ph", 0), ("sub",), ("con", 0), ("muln", 0)],
        [("spin", 0), ("ph", 0), ("mul",), ("neg",)],
    ]
    while len(out) < n:
        ops = list(r.choice(hid))
        e = build(ops, 1)
        full = {p: r.randint(0, 3) for p in phs(e)}
        k = r.random()
        if k < .35: d = {}
        elif k < .6: d = {p: v for p, v in full.items() if r.random() < .5}
        else: d = full
        if r.random() < .3: d[8] = 1
        pre = [p for p in sorted(full) if r.random() < .3]
        if pre: ops.append(("feed", tuple((p, full[p]) for p in pre)))
        out.append(line("%s_%d" % (tag, len(out)), pick_type(r, True), ops, d=d, cap=10, rets=1))
    return out


def prog_c06(r, n, tag="c06"):
    out = []
    while len(out) < n:
        k = r.random()
        if k < .3:
            # fractions around the threshold: linear constraints in units of 1/20000
            u, ty, w = 20000, "f64", 1
            ops = []
            nc = r.choice([1, 2, 3])
            for c in range(nc):
                m = r.choice([1, 1, 2])
                ops += [(r.choice(["num", "from"]), r.choice([-5, -3, -1, 0, 1, 3, 5, u, -u]))]
                for v in r.sample(range(3), m):
                    ops += [(r.choice(["bin", "bin", "spin"]), v),
                            ("muln", r.choice([1, -1, 3, -3, 4, -4, u, -u, 2 * u])),
                            (r.choice(["add", "sub"]),)]
                ops.append(("con", c))
                if r.random() < .3: ops.append(("muln", r.choice([0, 2 * u, -u])))
                if c: ops.append(("add",))
            e = build(ops, u)
            # an absolute value of exactly 1e-4 depends on rounding
            bad = False
            for cn in [x for x in walk(e) if x[0] == "con"]:
                vs = sorted(vrs(cn))
                for a in range(1 << len(vs)):
                    x = {v: a >> i & 1 for i, v in enumerate(vs)}
                    if abs(ev(cn[2], x, u)) in (2,): bad = True
            if bad or bound(e, u, w, 0) > 2 * 10**9 // 4: continue
            out.append(line("%s_%d" % (tag, len(out)), ty, ops, u=u, w=w, e=e, seed=r.randrange(1 << 30), cap=0))
            continue
        hi = r.random() < .3
        ty = pick_type(r, hi)
        nph = r.choice([0, 0, 1, 2])
        g = Gen(r, nv=r.choice([2, 3, 4]), nl=3, nph=nph, maxn=2, pens=r.random() < .3, maps=r.random() < .15)
        ops = []
        for c in range(r.choice([1, 2, 3, 4])):
            ops += g.clean(r.choice([1, 2, 2, 3])) + [("con", r.randrange(3))]
            m = r.random()
            if m < .15: ops.append(("muln", r.choice([0, 2, -3])))
            elif m < .25: ops += g.clean(1) + [("mul",)]
            elif m < .3: ops += [("pow", r.choice([1, 2]))]
            elif m < .4 and nph: ops += [("ph", 0), ("mul",)]
            if c: ops.append((r.choice(["add", "sub", "pen", "adda", "radd"]),))
        if r.random() < .5: ops += g.clean(2) + [("add",)]
        e = build(ops, 1)
        if e is None: continue
        d = {p: r.randint(0, 3) for p in phs(e)}
        pre = [p for p in d if r.random() < .4]
        if pre: ops += [("feed", tuple((p, d[p]) for p in pre))]
        e = build(ops, 1)
        w = r.choice([1, 1, 2])
        if not fits(e, ty, 1, w, 3, 5 if hi else 2): continue
        out.append(line("%s_%d" % (tag, len(out)), ty, ops, d={p: v for p, v in d.items() if p not in pre},
                        w=w, e=e, seed=r.randrange(1 << 30), cap=14, rets=6))
    return out


def ev(e, x, u):
    """Value without weights (used only to keep away from rounding limits)."""
    t = e[0]
    if t == "num": return e[1]
    if t == "bin": return u * x[e[1]]
    if t == "spin": return u * (2 * x[e[1]] - 1)
    if t == "add": return ev(e[1], x, u) + ev(e[2], x, u)
    if t == "mul": return ev(e[1], x, u) * ev(e[2], x, u) // u
    if t == "con": return ev(e[2], x, u)
    return ev(e[1], x, u)


def prog_c07(r, n, tag="c07"):
    out = []
    while len(out) < n:
        hi = r.random() < .2
        ty = pick_type(r, hi)
        u = unit_for(r, ty)
        g = Gen(r, nv=r.choice([1, 2, 3]), nl=2, nph=r.choice([0, 0, 1]), u=u, maxn=2, pens=True)
        ops = g.expr(r.choice([1, 2, 3])) + g.expr(r.choice([1, 2])) + [("pen",)]
        for _ in range(r.choice([0, 1, 2])):
            m = r.random()
            if m < .3: ops.append(("muln", u * r.choice([0, -1, 2, 3])))
            elif m < .45: ops.append(("pow", r.choice([0, 1, 2, 2])))
            elif m < .6: ops += g.leafop() + [(r.choice(["mul", "add", "sub"]),)]
            elif m < .7: ops.append(("neg",))
            elif m < .8: ops += [("dup",), (r.choice(["add", "mul"]),)]
            elif m < .9: ops += g.expr(1) + [("pen",)]
            else: ops = g.leafop() + ops + [("pen",)]
        e = build(ops, u)
        if e is None or not has(e, "pen"): continue
        w = r.choice([1, 2])
        if not fits(e, ty, u, w, 2 * u, 4 if hi else 2): continue
        d = {p: u * r.randint(0, 2) // (r.choice([1, 2]) if u > 1 else 1) for p in phs(e)}
        out.append(line("%s_%d" % (tag, len(out)), ty, ops, u=u, d=d, w=w, e=e, seed=r.randrange(1 << 30), cap=16))
    return out


def prog_c10(r, n, tag="c10"):
    out = []
    for k in range(n):
        sub = r.choice([prog_c01, prog_c02, prog_c07, prog_c04])
        l = sub(r, 1, "%s_%d" % (tag, k))[0]
        out.append(l.replace("rets=4", "rets=6"))
    return out


def prog_c15(r, n, tag="c15"):
    """One program in every number type that can hold it."""
    out = []
    k = 0
    while len(out) < n:
        hi = r.random() < .3
        g = Gen(r, nv=r.choice([1, 2, 3, 4]), nl=2, maxn=2, pens=r.random() < .2)
        ops = monomial(r, 4, 3, r.choice([-2, -1, 1, 2])) + g.expr(2) + [("add",)] if hi else g.expr(r.choice([2, 3, 4]))
        e = build(ops, 1)
        w = r.choice([1, 2, 3])
        if e is None or nested_bad(e) or totdeg(e) > (4 if hi else 2): continue
        if totdeg(e) == 0: continue
        seed = r.randrange(1 << 30)
        ok = [t for t in TYPES if fits(e, t, 1, w, 0, 4)]
        if len(ok) < 5: continue
        for t in ok:
            out.append(line("%s_%d%s" % (tag, k, t), t, ops, w=w, e=e, seed=seed, cap=16))
        k += 1
    return out


def prog_c19(r, n, tag="c19"):
    out = []
    while len(out) < n:
        g = Gen(r, nv=3, nl=2, nph=r.choice([0, 1]), maxn=2, pens=True, maps=True)
        ty = pick_type(r)
        ops = g.expr(r.choice([2, 3]))
        if r.random() < .5: ops += g.clean(2) + [("con", r.randrange(2)), (r.choice(["add", "pen"]),)]
        ops = ops + [g.mapop()]
        if r.random() < .4: ops = ops + [g.mapop()]
        e = build(ops, 1)
        if not fits(e, ty, 1, 1, 2, 2): continue
        if any(o[0] == "mapadd" for o in ops) and any(o[0] in ("sub", "neg", "nsub", "suba", "pow", "powa", "subn", "suban") for o in ops):
            # how the operators write their numbers is not part of the property
            continue
        d = {p: r.randint(0, 2) for p in phs(e)}
        out.append(line("%s_%d" % (tag, len(out)), ty, ops, d=d, e=e, seed=r.randrange(1 << 30), cap=14))
    return out


def maps(r, n, tag="map"):
    """Trees written out with the constructors; the result is compared as a tree."""
    out = []

    def tree(depth):
        k = r.random()
        if depth <= 0 or k < .12:
            return [r.choice([("bin", r.randrange(3)), ("spin", r.randrange(3)), ("num", r.randint(-3, 3)),
                              ("ph", r.randrange(2))])]
        if k < .35: return tree(depth - 1) + tree(depth - 1) + [("radd",)]
        if k < .58: return tree(depth - 1) + tree(depth - 1) + [("rmul",)]
        if k < .78: return tree(depth - 1) + [("con", r.randrange(3))]
        return tree(depth - 1) + tree(depth - 1) + [("pen",)]
    for k in range(n):
        ops = tree(r.choice([0, 1, 2, 3, 4, 5]))
        fs = []
        for _ in range(r.choice([1, 2, 3])):
            fs.append(r.choice([("mapid",), ("mapnum", r.randrange(3), r.randint(-2, 2)),
                                ("mapren", r.randrange(3), r.randrange(4)), ("mapswap",), ("mapadd", r.randint(-2, 2)),
                                ("maplab", r.randrange(1, 3)), ("mapstrip",), ("mapflip",), ("mapgrow",),
                                ("mapph", r.randrange(2), r.randint(0, 3))]))
        out.append("kind=map id=%s_%d ty=%s ops=%s f=%s" % (
            tag, k, r.choice(["i32", "f64"]), ";".join(show(o) for o in ops), ";".join(show(f) for f in fs)))
    return out


def wide_c01(r, n): return prog_wide(r, n, "w01", hi=0, ph=0)
def wide_c02(r, n): return prog_wide(r, n, "w02", hi=1, ph=.2, con=.3)
def wide_c04(r, n): return prog_wide(r, n, "w04", ph=1)
def wide_c06(r, n): return prog_wide(r, n, "w06", con=.9)
def wide_c07(r, n): return [l for l in prog_wide(r, 2 * n, "w07", con=.5) if ";pen" in l][:n]
def wide_c10(r, n): return prog_wide(r, n, "w10")
