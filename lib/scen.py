"""Inputs for the scripts: parameter sets, keys, messages with chosen positions.  Nothing here judges the library: hashlib
is only used to find messages that lead to interesting places."""
import hashlib, hmac, random

STD = {}
for fam in ("sha2", "shake"):
    for lv, f, s in ((128, (16, 33, 6, 66, 22), (16, 14, 12, 63, 7)), (192, (24, 33, 8, 66, 22), (24, 17, 14, 63, 7)),
                     (256, (32, 35, 9, 68, 17), (32, 22, 14, 64, 8))):
        STD[f"{fam}_{lv}f"] = dict(fam=fam, n=f[0], k=f[1], t=f[2], h=f[3], d=f[4])
        STD[f"{fam}_{lv}s"] = dict(fam=fam, n=s[0], k=s[1], t=s[2], h=s[3], d=s[4])
FSETS = [s for s in STD if s.endswith("f")]
SSETS = [s for s in STD if s.endswith("s")]


class P:
    """A parameter set: a standard one, or a shape of our own built on a standard one."""

    def __init__(self, name, base=None, k=None, t=None, h=None, d=None, spike=False):
        b = STD[base or name]
        self.name, self.base, self.spike = name, base, spike
        self.fam, self.n = b["fam"], b["n"]
        self.k, self.t, self.h, self.d = (b["k"], b["t"], b["h"], b["d"]) if base is None else (k, t, h, d)
        self.hp = self.h // self.d
        self.wl = 2 * self.n + 3
        self.nodes = 1 + self.k * (self.t + 1) + self.d * self.wl + self.h
        self.L = self.n * self.nodes

    def decl(self):
        return [] if self.base is None else [f"cps {self.name} {self.base} {self.k} {self.t} {self.h} {self.d}" + " spike" * self.spike]

    # where a message leads (for choosing inputs only)
    def position(self, sk, msg, opt=None):
        n = self.n
        opt = opt if opt is not None else sk[2 * n:3 * n]
        c = lambda x: (x + 7) // 8
        l0, l1, l2 = c(self.k * self.t), c(self.h - self.hp), c(self.hp)
        dl = l0 + l1 + l2
        if self.fam == "shake":
            r = hashlib.shake_256(sk[n:2 * n] + opt + msg).digest(n)
            dig = hashlib.shake_256(r + sk[2 * n:] + msg).digest(dl)
        else:
            H = hashlib.sha256 if n == 16 else hashlib.sha512
            r = hmac.new(sk[n:2 * n], opt + msg, H).digest()[:n]
            x = r + sk[2 * n:3 * n] + H(r + sk[2 * n:] + msg).digest()
            dig, i = b"", 0
            while len(dig) < dl:
                dig += H(x + i.to_bytes(4, "big")).digest()
                i += 1
            dig = dig[:dl]
        v = int.from_bytes(dig[:l0], "big") >> (8 * l0 - self.k * self.t)
        leaves = [(v >> (self.t * (self.k - 1 - i))) & ((1 << self.t) - 1) for i in range(self.k)]
        tree = int.from_bytes(dig[l0:l0 + l1], "big") & ((1 << (self.h - self.hp)) - 1)
        leaf = int.from_bytes(dig[l0 + l1:], "big") & ((1 << self.hp) - 1)
        return leaves, tree, leaf


def std(name):
    return P(name)


BASES = {("sha2", 16): "sha2_128f", ("sha2", 24): "sha2_192f", ("sha2", 32): "sha2_256f",
         ("shake", 16): "shake_128f", ("shake", 24): "shake_192f", ("shake", 32): "shake_256f"}


def shape(fam, n, k, t, h, d):
    return P(f"{fam}{n}_{k}_{t}_{h}_{d}", BASES[fam, n], k, t, h, d)


def spiky(p):
    """The same shape, with extreme node values and digests (Sphincs.tla)."""
    b = BASES[p.fam, p.n]
    return P("x" + p.name, b, p.k, p.t, p.h, p.d, True)


FAMN = [(f, n) for f in ("sha2", "shake") for n in (16, 24, 32)]


def rng(*salt):
    import vf
    return random.Random(repr((vf.SEED,) + salt))


def rbytes(r, n):
    return bytes(r.getrandbits(8) for _ in range(n))


def key(r, p):
    """Some 4n bytes in the private key format (the root need not be the real one for signing)."""
    return rbytes(r, 4 * p.n)


def hexs(b):
    return b.hex() or "-"


def find(p, sk, want, r, tries=400000, opt=None, prefix=b""):
    """A message whose position satisfies want(leaves, tree, leaf)."""
    for i in range(tries):
        m = prefix + b"m%d.%d" % (r.getrandbits(40), i)
        if want(*p.position(sk, m, opt)):
            return m
    return None


def extreme_messages(p, sk, r, budget=20000):
    """Messages leading to extreme places: lowest/highest leaves, trees with high or low bits set, FORS leaves 0 / max / in
    the highest tree.  One pass over `budget` messages, keeping the best one for each goal."""
    hb = p.h - p.hp
    T = 1 << p.t
    goals = {
        "leaf0": lambda f, t, l: -l, "leafmax": lambda f, t, l: l,
        "treelow": lambda f, t, l: -t, "treehigh": lambda f, t, l: t,
        "low32ones": lambda f, t, l: (t & 0xffffffff),
        "low32zero": lambda f, t, l: -(t & 0xffffffff),
        "toplayerleaf0": lambda f, t, l: -(t >> (hb - p.hp)) if hb >= p.hp else 0,
        "midleaf": lambda f, t, l: ((t & ((1 << p.hp) - 1)) if hb >= p.hp else 0) + l,
        "midleaf0": lambda f, t, l: -((t & ((1 << p.hp) - 1)) if hb >= p.hp else 0) - l,
        "fors0": lambda f, t, l: -f[0], "forslastmax": lambda f, t, l: f[-1],
        "forslast0": lambda f, t, l: -f[-1], "forsmanymax": lambda f, t, l: sum(x == T - 1 for x in f) * T + max(f),
        "forsmany0": lambda f, t, l: sum(x == 0 for x in f) * T - min(f),
        "forsmid": lambda f, t, l: sum(x in (T // 2, T // 2 - 1) for x in f),
    }
    best = {}
    for i in range(budget):
        m = b"x%d.%d" % (r.getrandbits(32), i)
        f, t, l = p.position(sk, m)
        for g, fn in goals.items():
            v = fn(f, t, l)
            if g not in best or v > best[g][0]:
                best[g] = (v, m)
    return {g: m for g, (v, m) in best.items()}
