"""Scripts for the checks.  A Block is a self-contained piece of script; pack() spreads blocks over driver runs."""
import itertools
import scen
from scen import P, STD, FSETS, SSETS, FAMN, shape, std, rng, rbytes, key, hexs


class Block:
    def __init__(self, ps, lines, cost=1.0):
        self.ps, self.lines, self.cost = ps if isinstance(ps, (list, tuple)) else [ps], lines, cost


def cost_sign(p):
    c = p.k * 2 ** p.t * 2 + p.d * 2 ** p.hp * p.wl * 16
    return c * (2.5 if p.fam == "shake" else 1.0) + 3000


def cost_verify(p):
    return (p.k * p.t + p.d * p.wl * 8) * (2.5 if p.fam == "shake" else 1.0) + 1000


def pack(blocks, bins, chunk=None):
    """Longest first onto the least loaded; order inside a bin as given."""
    bins = max(1, min(bins, len(blocks)))
    load, where = [0.0] * bins, [[] for _ in range(bins)]
    for i in sorted(range(len(blocks)), key=lambda i: -blocks[i].cost):
        b = min(range(bins), key=lambda x: load[x])
        load[b] += blocks[i].cost
        where[b].append(i)
    out = []
    for w in where:
        seen, lines = set(), []
        for i in sorted(w):
            for p in blocks[i].ps:
                if p.base and p.name not in seen:
                    seen.add(p.name)
                    lines += p.decl()
            lines += blocks[i].lines
        out.append(lines)
    return [o for o in out if o]


def sign_once(p, sk, msg, opt=None, c=0, k=None):
    return [f"isign {c} {p.name} {sk.hex() if isinstance(sk, bytes) else sk} {hexs(msg) if isinstance(msg, bytes) else msg} " +
            (f"ok:{opt.hex()}" if opt is not None else "null"),
            f"sign {c} {k or p.L + 64}"]


TINY = [shape(f, n, 2, 1, 2, 2) for f, n in FAMN]
EXH = [shape(f, n, 2, 2, 4, 2) for f, n in FAMN]


def spiked(c, real_s=False):
    """Spiked shapes: as the F sets, small ones, and (on request) as the S sets."""
    dims = {p.n: p for p in map(std, FSETS)}
    out = [scen.spiky(shape(f, n, dims[n].k, dims[n].t, dims[n].h, dims[n].d)) for f, n in FAMN]
    out += [scen.spiky(shape(f, n, *x)) for f, n in FAMN for x in ((2, 3, 6, 3), (5, 2, 12, 12))]
    if real_s:
        dims = {p.n: p for p in map(std, SSETS)}
        out += [scen.spiky(shape(f, n, dims[n].k, dims[n].t, dims[n].h, dims[n].d)) for f, n in FAMN]
    return out


def every_position(p, sk, r, cap=None):
    """Messages that together reach every (hypertree position, set of FORS leaves) of a small shape."""
    total = 2 ** p.h * 2 ** (p.t * p.k)
    want, out, i = cap or total, {}, 0
    while len(out) < want and i < 60 * total:
        m = b"e%d" % i
        f, t, l = p.position(sk, m)
        out.setdefault((tuple(f), t, l), m)
        i += 1
    return list(out.values()), total


def have(binary, blocks):
    """Without access to internal.h there are only the standard sets."""
    return [b for b in blocks if binary.internal or all(p.base is None for p in b.ps)]


def splits(r, total, style):
    """Request sizes that add up to `total`."""
    out, left = [], total
    while left > 0:
        k = min(left, max(1, style(r)))
        out.append(k)
        left -= k
    return out


def style_mix(n):
    def f(r):
        x = r.random()
        if x < .25:
            return r.randint(1, 3)
        if x < .5:
            return r.choice([n - 1, n, n + 1, 2 * n - 1, 2 * n, 2 * n + 1])
        if x < .8:
            return r.randint(1, 4 * n)
        return r.randint(1, 60 * n)
    return f


def prelude(p, sk, r, c=0):
    """What a context went through before: nothing, garbage, an operation left half way."""
    if r.random() < .2:
        return [f"keep {r.randrange(2)}"] + prelude(p, sk, r, c)
    x = r.random()
    if x < .35:
        return []
    if x < .5:
        return [f"fill {c} {r.choice(['0', '255', '1', '85', 'r%d' % r.randrange(10 ** 6)])}"]
    if x < .6:
        return [f"smear r{r.randrange(256)}", f"fill {c} r{r.randrange(10 ** 6)}"]
    if x < .7:
        return [f"zero {c}"]
    sk = sk.hex() if isinstance(sk, bytes) else sk
    if x < .9:
        return [f"isign {c} {p.name} {sk} {hexs(rbytes(r, r.randint(0, 9)))} null"] + [f"sign {c} {r.randrange(2 * p.n + 2 if p.L > 6000 else p.L)}"] * r.randint(0, 2)
    return [f"iver {c} {p.name} {sk[4 * p.n:]} {hexs(rbytes(r, 4))}", f"feed {c} {rbytes(r, r.randint(1, 3 * p.n)).hex()}"]


def chunks(p, r):
    """Request sizes for a whole signature, in some style; the last request may ask for more than is left."""
    x = r.random()
    if x < .3:
        return [p.L + r.choice([0, 1, 64])]
    if x < .5:
        k = r.choice([1, 7, p.n - 1, p.n, p.n + 1, 2 * p.n, 3 * p.n + 5, 255, 256, 257, 1000]) if p.L < 3000 else \
            r.choice([p.n - 1, p.n + 1, 4 * p.n, 255, 256, 257, 1000, 4096])
        return [k] * ((p.L + k - 1) // k)
    return splits(r, p.L, style_mix(p.n) if x < .8 or p.L < 3000 else lambda q: q.randint(1, p.L // 3))


def sign_some_way(p, sk, msg, r, opt=None, c=0):
    """A signature on a context with some past, requested in some pieces."""
    start = sign_once(p, sk, msg, opt, c)[0]
    return prelude(p, sk, r, c) + [start] + [f"sign {c} {k}" for k in chunks(p, r)]


def interleave(threads, r):
    """One script out of several, each in its order."""
    todo = [list(t) for t in threads if t]
    out = []
    while todo:
        t = r.choice(todo)
        for _ in range(r.choice([1, 1, 1, 2, 3, 8])):
            if t:
                out.append(t.pop(0))
        todo = [t for t in todo if t]
    return out


def feed_some_way(p, pk, msg, buf, r, c=0, ask=.1):
    """The signature in `buf` verified in some pieces."""
    m = hexs(msg) if isinstance(msg, bytes) else msg
    out, o = [f"iver {c} {p.name} {pk} {m}"], 0
    for k in chunks(p, r):
        k = min(k, p.L - o)
        if k or r.random() < .1:
            out.append(f"feedb {c} {buf} {o} {k}")
        if r.random() < ask and p.L < 3000:
            out.append(r.choice([f"ver {c}", f"feed {c} -"]))
        o += k
    return out + [f"ver {c}"]


def sign_verify_some_way(p, sk, pk, msg, r, opt=None, c=0, v=None, buf="V"):
    """Sign on a context with some past in some pieces; verify likewise on the same or another context."""
    v = c if v is None else v
    return sign_some_way(p, sk, msg, r, opt, c) + [f"take {buf} {c}"] + prelude(p, sk, r, v) + feed_some_way(p, pk, msg, buf, r, v)
