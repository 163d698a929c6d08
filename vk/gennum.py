"""Random numbers of the supported types."""
from genanneal import ALL

WIDTH = {"i8": 7, "i16": 15, "i32": 31, "i64": 63, "i128": 127}


def text(v):
    return "%d:%d:%s" % v


def number(r, t):
    g = r.randint(0, 1)
    if t in WIDTH:
        m = r.getrandbits(r.randint(1, WIDTH[t]))
        e = 0
        if m and r.random() < .4: e = r.randint(0, WIDTH[t] - m.bit_length())
    else:
        p, lo, hi = (24, -149, 127) if t == "f32" else (53, -1074, 1023)
        m = r.getrandbits(r.randint(1, p))
        a, b = lo, hi - m.bit_length() + 1
        if r.random() < .7: a, b = max(a, -30), min(b, 70)
        e = r.randint(a, b)
    return exact(g, e, m)


def exact(g, e, m):
    if m == 0: return (0, 0, "")
    while m % 2 == 0: m //= 2; e += 1
    return (g, e, bin(m)[2:])


def prog_c24(r, n):
    out = []
    while len(out) < n:
        t = r.choice(ALL)
        a = number(r, t)
        k = r.randint(0, 5)
        if k == 0: b = a
        elif k == 1 and a[2]: b = (1 - a[0], a[1], a[2])
        elif k == 2 and len(a[2]) > 2:
            b = exact(a[0], a[1], int(a[2], 2) - 2)
        elif k == 3 and t not in WIDTH: b = (r.randint(0, 1), 99999, "1")
        elif k == 3: b = (1, WIDTH[t], "1")
        else: b = number(r, t)
        if r.random() < .5: a, b = b, a
        out.append("kind=numops id=c24_%d from=%s a=%s b=%s" % (len(out), t, text(a), text(b)))
    return out


def prog_c22(r, n):
    out = []
    while len(out) < n:
        t = r.choice(ALL)
        out.append("kind=conv id=c22_%d from=%s v=%s" % (len(out), t, text(number(r, t))))
    return out
