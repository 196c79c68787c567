"""The checks, one function per property.  Each drives scenarios and lets TLC decide."""
import json, os, re, itertools
import vf, scen, tour
from vf import ALLP, BuildError, ToolError
from scen import P, STD, FSETS, SSETS, FAMN, shape, std, rng, rbytes, key, hexs
from suites import *

SPEC = dict(SIGMODE="spec", VALMODE="spec", KEYMODE="spec")
OWNSPEC = dict(VALMODE="spec")            # signatures as learned, validity by the specification
BINS = 16


def jobs_of(name, binary, blocks, env, bins=BINS, drive_env=None, timeout=400):
    return [dict(name=f"{name}.{i}", binary=binary, scripts=[s], env=env, drive_env=drive_env, timeout=timeout)
            for i, s in enumerate(pack(have(binary, blocks), bins))]


def subjects(keyed, r, second=()):
    """tour.Subject for each (P, sk, pk); the other key is one with the same seed and another root, or somebody else's.
    Each comes with another message for the same key, and with another key (those in `second`), where that is not slow."""
    second = {p.name: (p, sk, pk) for p, sk, pk in second}

    def one(p, sk, pk, m, tag):
        other = r.choice([pk[:2 * p.n] + flip_hex(pk[2 * p.n:], r.randrange(p.n), 1 << r.randrange(8)), rbytes(r, 2 * p.n).hex()])
        return tour.Subject(p, sk, pk, hexs(m), "G" + p.name + tag, "J" + p.name + tag, other, rbytes(r, p.n).hex() if r.random() < .5 else None)
    out = []
    for p, sk, pk in keyed:
        m = rbytes(r, r.randint(0, 40))
        s = one(p, sk, pk, m, "")
        if p.name not in SSETS:
            s.others.append(one(p, sk, pk, rbytes(r, len(m) if r.random() < .7 else r.randint(0, 40)), ".m"))
        if p.name in second:
            s.others.append(one(*second[p.name], m if r.random() < .5 else rbytes(r, r.randint(0, 40)), ".k"))
        out.append(s)
    return out


def tour_blocks(g, subs, wanted, allowed, r, parts=1, weight=1.0):
    """Walks over the edges of GenApi.tla, one set of walks per subject."""
    out = []
    for s in subs:
        for w in g.walks(wanted, allowed, r, parts):
            ls = tour.prepare(s, r) + tour.script(w, s, 0, g.blocks, r)
            out.append(Block(s.p, ls, weight * len(w) * (cost_sign(s.p) * .3 + cost_verify(s.p) * .3)))
    return out


def tour_pairs(g, pairs, wanted, allowed, r, parts=1):
    """Two walks at a time, on two contexts, interleaved."""
    out = []
    for s, t in pairs:
        for wa, wb in zip(g.walks(wanted, allowed, r, parts), g.walks(wanted, allowed, r, parts)):
            a, b = tour.script(wa, s, 0, g.blocks, r), tour.script(wb, t, 1, g.blocks, r)
            ls = tour.prepare(s, r) + tour.prepare(t, r)
            a.reverse(), b.reverse()
            while a or b:
                x = a if a and (not b or r.random() < len(a) / (len(a) + len(b))) else b
                for _ in range(r.choice([1, 1, 1, 2, 4])):
                    if x:
                        ls.append(x.pop())
                if r.random() < .02:
                    ls.append(f"smear r{r.randrange(256)}")
            out.append(Block([s.p, t.p] if s.p.name != t.p.name else s.p, ls,
                             len(wa) * .3 * (cost_sign(s.p) + cost_sign(t.p))))
    return out


# ---------------------------------------------------------------------- C01
def c01(c):
    c.model("MCSphincs", note="MCSphincs: overridden operators = their definitions")
    c.model("MCTree", cfg="MCTreeAll.cfg" if c.thorough else None, note="MCTree: the walk of every subtree")
    c.model("MCBits", note="MCBits: digests cut up, every shape")
    b = c.compile("O2")
    blocks = []
    r = rng("c01")
    for name in STD:
        p = std(name)
        sk = key(r, p)
        ex = scen.extreme_messages(p, sk, r, 4000 if not c.thorough else 60000)
        goals = sorted(ex)
        r.shuffle(goals)
        if name in SSETS and not c.thorough:
            goals = goals[:2]
        for g in goals:
            blocks.append(Block(p, sign_some_way(p, sk, ex[g], r), cost_sign(p)))
        m = rbytes(r, r.randint(0, 400))
        blocks.append(Block(p, sign_once(p, key(r, p), m, rbytes(r, p.n)), cost_sign(p)))
        if name in FSETS or c.thorough:
            for sk2 in (bytes(4 * p.n), b"\xff" * 4 * p.n):
                blocks.append(Block(p, sign_once(p, sk2, b"", bytes(p.n)), cost_sign(p)))
            for _ in range(6 if not c.thorough else 25):
                blocks.append(Block(p, sign_some_way(p, key(r, p), rbytes(r, r.randint(0, 300)), r, rbytes(r, p.n)), cost_sign(p)))
    c.extra["positions_exhausted"] = {}
    for p in EXH:
        sk = key(r, p)
        ms, total = every_position(p, sk, r)
        c.extra["positions_exhausted"][p.name] = f"{len(ms)} of {total}"
        for i in range(0, len(ms), 32):
            blocks.append(Block(p, sum((sign_some_way(p, sk, m, r) for m in ms[i:i + 32]), []), cost_sign(p) * 32))
    for fam in ("sha2", "shake"):            # other shapes: three layers, tall trees, many layers, single layer heights
        for n in (16, 24, 32):
            for (k, t, h, d, count) in ((1, 3, 6, 3, 24), (35, 1, 33, 33, 2), (2, 14, 4, 2, 2), (1, 1, 18, 2, 3), (3, 5, 64, 16, 3),
                                        (2, 2, 64, 8, 2), (2, 9, 68, 17, 2), (5, 3, 8, 2, 6)):
                p = shape(fam, n, k, t, h, d)
                sk = key(r, p)
                ex = scen.extreme_messages(p, sk, r, 600)
                ms = [ex[g] for g in sorted(ex)]
                r.shuffle(ms)
                for m in ms[:count if not c.thorough else 15]:
                    blocks.append(Block(p, sign_some_way(p, sk, m, r), cost_sign(p)))
                if h < 20 and t < 14:        # several signatures under way at once
                    blocks.append(Block(p, interleave([sign_some_way(p, key(r, p), r.choice(ms), r, rbytes(r, n), c=j) for j in range(4)], r),
                                        4 * cost_sign(p)))
    for p in spiked(c, True):                # extreme digits, checksums and positions
        count = 1 if p.t >= 12 else 8 if p.L > 10000 else 16
        for _ in range(count if not c.thorough else 4 * count):
            blocks.append(Block(p, sign_some_way(p, key(r, p), rbytes(r, r.randint(0, 99)), r, rbytes(r, p.n)), cost_sign(p)))
    for p in TINY:                           # every message length up to two blocks and more
        sk = key(r, p)
        lens = list(range(0, 301)) + [383, 384, 385, 511, 512, 513, 1000, 4095, 4096, 4097, 65535, 65536, 65537]
        for i in range(0, len(lens), 40):
            blocks.append(Block(p, sum((sign_once(p, sk, rbytes(r, n), rbytes(r, p.n) if n % 3 == 0 else None)
                                        for n in lens[i:i + 40]), []), cost_sign(p) * 40))
        blocks.append(Block(p, sign_once(p, sk, "(61*1000003)"), cost_sign(p) + 20000))
        blocks.append(Block(p, sign_once(p, sk, "null", rbytes(r, p.n)) + sign_once(p, sk, "null") + sign_once(p, sk, "-"), 3 * cost_sign(p)))
    # beyond 2^29 bytes (2^32 bits) and 2^32 bytes
    long = [(TINY[0], 2 ** 32 + 5), (TINY[2], 2 ** 32 + 1), (TINY[3 + vf.SEED % 3], 2 ** 32 + 3), (TINY[1], 2 ** 29 + 7), (TINY[2], 2 ** 29 - 40), (TINY[0], 2 ** 29 - 33)]
    if c.thorough:
        long += [(p, x) for p in TINY for x in (2 ** 28 + 1, 2 ** 31 - 1, 2 ** 31 + 55, 2 ** 32 - 1, 2 ** 32, 2 ** 33 + 3)]
    jobs = [j for i, (p, x) in enumerate(long) for j in jobs_of(f"long{i}", b, [Block(p, sign_once(p, key(r, p), "(%02x*%d)" % (r.randrange(256), x)))], SPEC, timeout=850)]
    c.check_runs(jobs + jobs_of("sign", b, blocks, SPEC))
    return c.finish()


# ---------------------------------------------------------------------- C02
def gen_line(p, mode, pub=True, extra=""):
    return f"gen {p.name} {mode} {'pub' if pub else 'nopub'} {extra}".rstrip()


def c02(c):
    b = c.compile("O2")
    r = rng("c02")
    blocks = []
    shapes = [std(n) for n in STD] + TINY + [shape(f, n, 1, 1, h, 2) for f, n in FAMN for h in (4, 6, 8)] + \
             [shape(f, n, 2, 2, 5 * 3, 5) for f, n in FAMN]
    for p in shapes:
        small = p.name not in SSETS
        n3 = 3 * p.n
        ls = [f"size {p.name}"]
        ls.append(gen_line(p, "ok:" + rbytes(r, n3).hex()))
        x = rbytes(r, n3).hex()
        if small or c.thorough:
            ls.append(gen_line(p, "ok:" + x, True))
            ls.append(gen_line(p, "ok:" + x, False))
            ls.append(gen_line(p, "ok:" + "00" * n3))
            ls.append(gen_line(p, "ok:" + "ff" * n3))
            for _ in range(4 if not c.thorough else 20):
                ls.append(gen_line(p, "ok:" + rbytes(r, n3).hex(), r.random() < .5))
        else:
            ls.append(gen_line(p, "ok:" + x, False))
        for pub in (True, False):
            ls.append(gen_line(p, "fail:" + rbytes(r, n3).hex(), pub))
            ls.append(gen_line(p, "fail:" + "00" * n3, pub))
            ls.append(gen_line(p, "null", pub))
            ls.append(gen_line(p, "ok:" + rbytes(r, n3).hex(), pub, "nosk"))
            ls.append(gen_line(p, "ok:" + rbytes(r, n3).hex(), pub, "nops"))
            ls.append(gen_line(p, "null", pub, "nosk"))
        ls.append(gen_line(p, "ok:" + x, True))         # after failures, again
        ls = [y for z in ls for y in ([f"smear r{r.randrange(256)}", z] if r.random() < .3 else [z])]
        blocks.append(Block(p, ls, p.wl * 16 * 2 ** p.hp * 8))
    c.model("MCKeyGen", note="MCKeyGen: every way a call can go")
    c.check_runs(jobs_of("gen", b, blocks, SPEC))
    return c.finish()


# ---------------------------------------------------------------------- C03
HUGE = [2 ** 31 - 1, 2 ** 31, 2 ** 31 + 1, 2 ** 32 - 1, 2 ** 32 - 16]


SHAPES_IND = ["CInit" + x for x in ("128f", "128s", "192f", "192s", "256f", "256s", "Tiny")]


def c03(c):
    b = c.compile("O2")
    r = rng("c03")
    blocks = []
    learn = dict(SIGMODE="learn", VALMODE="own", KEYMODE="learn")
    for p in [std(n) for n in STD]:
        blocks.append(Block(p, [f"size {p.name}"], 1))
    three = [shape(f, n, 2, 2, 6, 3) for f, n in FAMN]
    many = r.choice(TINY)
    for p in TINY + three:
        sk, m = key(r, p), b"chunks"
        ls = [f"size {p.name}"] + sign_once(p, sk, m)
        start = ls[1]
        sizes = list(range(1, 4 * p.n + 3)) + [5 * p.n, 5 * p.n + 1, 255, 256, 257, 511, 512, 513, p.L - 1, p.L, p.L + 1, 65535, 65536]
        if p in three and not c.thorough:
            sizes = sizes[::5] + [255, 256, 257]
        for k in sizes:
            ls += [start, f"signto 0 {k}"]
        # every (offset, request size): offset o by requests of one size, then size k, then the rest
        offs = range(0, p.L, 1) if p in TINY else range(0, p.L, 7)
        for o in offs:
            if o % p.n in (0, 1, p.n - 1) or c.thorough or o % 5 == r.randint(0, 4):
                k = r.choice([1, 2, p.n - 1, p.n, p.n + 1, 2 * p.n, 2 * p.n + 1, 3 * p.n - 1, 256, r.randint(1, 8 * p.n)])
                ls += [start, "sign 0 0", f"sign 0 {o}", "sign 0 0", f"sign 0 {k}", "sign 0 0", f"sign 0 {r.choice(HUGE + [p.L])}", "sign 0 1"]
        for k in HUGE:
            ls += [start, f"sign 0 {k}", f"sign 0 {k}", "sign 0 1 300", "sign 0 0 3", f"sign 0 {p.n}", f"sign 0 {k}"]
            ls += [start, "sign 0 5", f"sign 0 {k}", "sign 0 7"]
        ls += [start, f"sign 0 {p.L}", "sign 0 1 1100", f"sign 0 {p.L} 3"]
        for _ in range(12 if not c.thorough else 60):
            ls += [start] + [f"sign 0 {k}" for k in splits(r, p.L, style_mix(p.n))] + ["sign 0 3 2"]
        if p is many or c.thorough and p in TINY:       # more calls than a counter of 16 bits counts
            blocks.append(Block(p, [start, "sign 0 5", "sign 0 0 66000", f"sign 0 {p.L}", "sign 0 1 66000", "sign 0 0 300"], 5 * 10 ** 5))
        nn = max(1, len(ls) // (400 if p in TINY else 200))
        blocks.append(Block(p, ls, cost_sign(p) * len(ls) / 3))
    for name in STD:
        p = std(name)
        sk, m = key(r, p), rbytes(r, 20)
        opt = rbytes(r, p.n)
        ls = [f"size {p.name}"] + sign_once(p, sk, m, opt)
        start = ls[1]
        reps = (3 if name in FSETS else 1) * (4 if c.thorough else 1)
        for _ in range(reps):
            ls += [start] + [f"sign 0 {k}" for k in splits(r, p.L, style_mix(p.n))] + ["sign 0 1 40", "sign 0 100000"]
        if name in FSETS or c.thorough:
            ls += [start, "signto 0 1", "sign 0 1 270"]
            ls += [start, f"signto 0 {p.n}", f"sign 0 {HUGE[1]}", f"sign 0 {HUGE[3]}"]
            ls += [start, "signto 0 1000", start, f"sign 0 {p.L - 1}", "sign 0 2", "sign 0 1 5"]
        blocks.append(Block(p, ls, cost_sign(p) * (reps + 1)))
    g = tour.Graph(c)
    some = lambda: [(p, key(r, p).hex(), "00" * 2 * p.n) for p in TINY + three + [std(x) for x in (STD if c.thorough else FSETS)]]
    subs = subjects(some(), r, some())
    blocks += tour_blocks(g, subs, tour.signing, tour.or_clear(tour.signing), r)
    c.proofs("IndStream", SHAPES_IND, ["InitS"], ["IndInitS"])
    for cfg in ("MCStreamA.cfg", "MCStreamB.cfg"):
        c.model("MCStream", cfg=cfg, note="Stream refines Api, every position: " + cfg)
    if c.thorough:
        c.model("MCStream", cfg="MCStreamC.cfg", note="Stream refines Api, byte requests", timeout=1800)
    c.check_runs(jobs_of("chunks", b, blocks, learn, bins=24))
    return c.finish()




# ---------------------------------------------------------------------- C04
def spec_keys_and_sigs(c, wants):
    """wants: list of (P, random3n, [msgs], opt).  Returns [(P, sk, pk, [(msg, sig)])], all computed by TLC."""
    keys = c.spec([("key", p, x.hex()) for p, x, _, _ in wants])
    reqs = [("sign", w[0], sk, m.hex(), w[3].hex() if w[3] else None) for w, sk in zip(wants, keys) for m in w[2]]
    sigs = iter(c.spec(reqs))
    out = []
    for (p, x, ms, o), sk in zip(wants, keys):
        out.append((p, sk, sk[4 * p.n:], [(m, next(sigs)) for m in ms]))
    return out


def far(r, L, n):
    """Numbers of surplus bytes for one call."""
    return [65536, 2 ** 31, 2 ** 32 - 1 - L, 65536 * n, 256 * n, 65536 * r.randrange(2, 1000), 65536 - n, 65535, 2 ** 24, 2 ** 31 - L, 2 ** 31 - n,
            2 ** 32 - n, 2 ** 32 - 1, 2 ** 32 - 1 - L - r.randrange(n), 2 ** 31 + n * r.randrange(1000), 2 ** 31 + r.randrange(2 ** 31 - 10 ** 6)]


def c04(c):
    b = c.compile("O2")
    r = rng("c04")
    three = [shape(f, n, 2, 2, 6, 3) for f, n in FAMN]
    sets = TINY + three + [std(n) for n in STD]
    data = spec_keys_and_sigs(c, [(p, rbytes(r, 3 * p.n), [b"verify me", b""] if p in TINY else [b"verify me"], rbytes(r, p.n))
                                  for p in sets])
    blocks = []
    many = r.choice(TINY)
    for p, sk, pk, ms in data:
        m, s = ms[0]
        L, n = p.L, p.n
        tiny, small = p in TINY, p in TINY or p in three
        iv = f"iver 0 {p.name} {pk} {hexs(m)}"
        bad = r.randrange(L)
        s2 = ms[1][1] if tiny else None
        ls = [f"buf S {s}"] + ([f"buf S2 {s2}"] if s2 else [])
        bb = bytearray(bytes.fromhex(s))
        bb[bad] ^= 1 << r.randrange(8)
        ls.append(f"buf B {bytes(bb).hex()}")
        ls.append(f"buf X {s + rbytes(r, 2 * n).hex()}")
        ls.append(f"buf SS {s + s}")
        G = lambda lines, cost=1: blocks.append(Block(p, ls + lines, cost * cost_verify(p)))
        # whole, and in equal chunks; verdict asked before, between and after
        sizes = [L] + (list(range(1, 4 * n + 3)) + [255, 256, 257, 511, 512, 513, L - 1, L // 2] if tiny
                       else [1, n - 1, n, n + 1, 2 * n - 1, 255, 256, 257, L - 1] if small or p.name in FSETS
                       else [7, n, 1000, L - 1])
        lines = []
        for k in sizes:
            lines += [iv, "ver 0", f"feedto 0 S 0 {L} {k}", "ver 0", "ver 0", "feed 0 -", "ver 0"]
            if k % 3 == 0 or not tiny:
                lines += [iv, f"feedto 0 B 0 {L} {k}", "ver 0", f"feedb 0 S 0 {min(L, 40)}", "ver 0", "feed 0 -"]
        for i in range(0, len(lines), 300):
            G(lines[i:i + 300], 20)
        # random splits with empty chunks and questions in between
        for _ in range((10 if small else 3) * (5 if c.thorough else 1)):
            for bufn in ("S", "B"):
                lines, o = [iv], 0
                for k in splits(r, L, style_mix(n)):
                    lines.append(f"feedb 0 {bufn} {o} {k}")
                    o += k
                    if r.random() < .1:
                        lines.append("ver 0")
                    if r.random() < .1:
                        lines.append("feed 0 -")
                lines += ["ver 0", "feed 0 -", "ver 0"]
                G(lines)
        # every offset: prefix, question, empty chunk, rest (tiny shapes: every one; others sampled)
        offs = range(1, L) if tiny else sorted({1, n - 1, n, n + 1, L - n - 1, L - n, L - n + 1, L - 1} |
                                              {r.randrange(1, L) for _ in range(40 if small else 12)})
        lines = []
        for o in offs:
            lines += [iv, f"feedb 0 S 0 {o}", "ver 0", "feed 0 -", f"feedb 0 S {o} {L - o}", "ver 0"]
            if tiny and o % 4 == 0:                 # incomplete, then started over
                lines += [iv, f"feedb 0 S 0 {o}", "ver 0", iv, "ver 0", f"feedb 0 S 0 {L}", "ver 0"]
        for i in range(0, len(lines), 800):
            G(lines[i:i + 800], 100)
        # beyond the end
        lines = []
        more = sorted({1, 2, n - 1, n, n + 1, 2 * n, 255, 256, 257, 65536 % L + 1})
        for x in more:
            if x <= 2 * n:
                lines += [iv, f"feedb 0 X 0 {L + x}", "ver 0", "feed 0 -", "ver 0", "feed 0 00", "ver 0"]
                for y in (1, n, n + 1, 3 * n):
                    lines += [iv, f"feedb 0 X 0 {L - y}", f"feedb 0 X {L - y} {y + x}", "ver 0", f"feedb 0 S 0 {L}", "ver 0"]
            lines += [iv, f"feedb 0 S 0 {L}", "ver 0", f"feedb 0 SS {L} {x}", "ver 0", "feed 0 -", "ver 0", "feed 0 00", "ver 0", f"feedb 0 S 0 {L}", "ver 0"]
        lines += [iv, f"feedb 0 SS 0 {2 * L}", "ver 0", iv, f"feedb 0 S 0 {L}"] + [f"feedb 0 S {i} 1" for i in range(3 * n)] + ["ver 0"]
        lines += [iv, f"feedb 0 S 0 {L}"] + ["feed 0 00", "ver 0"] * (2 * n + 2)
        lines += [iv, f"feedb 0 S 0 {L}", f"feedto 0 S 0 {L} {n}", "ver 0", iv, f"feedb 0 S 0 {L}", f"feedto 0 S 0 {L} 1", "ver 0"]
        lines += [iv, f"feedb 0 S 0 {L}", f"feedb 0 S 0 {L}", "ver 0", f"feedb 0 S 0 {L}", "ver 0"]
        G(lines, 60)
        # far beyond the end, in one call: lengths that look right when something is cut off them
        lines = []
        for x in far(r, L, n) if small or p.name in FSETS or c.thorough else far(r, L, n)[:4]:
            if L + x < 2 ** 32:
                lines += [iv, f"feedh 0 S 0 {L} {x} {r.randrange(256)}", "ver 0"]
                o = r.randrange(1, L)
                lines += [iv, f"feedb 0 S 0 {o}", f"feedh 0 S {o} {L - o} {x} 0", "ver 0", "feed 0 -", "ver 0"]
            lines += [iv, f"feedb 0 S 0 {L}", "ver 0", f"feedh 0 S 0 0 {x} {r.randrange(256)}", "ver 0", "feed 0 -", "ver 0"]
        lines += [iv, f"feedb 0 S 0 {L}", f"feedh 0 S 0 {L} {65536 * n - L} 0", "ver 0", iv, f"feedb 0 B 0 {L}", f"feedh 0 S 0 {L} 65536 0", "ver 0"]
        G(lines, 40)
        # after a failure
        lines = [iv, f"feedb 0 B 0 {L}", "ver 0"] + ["feed 0 00", "ver 0", "feed 0 -", "ver 0"] * 20 + [f"feedb 0 S 0 {L}", "ver 0"] * 3
        lines += [iv, f"feedb 0 B 0 {L}", f"feedto 0 S 0 {L} {n}", "ver 0"] + ([f"feedto 0 S 0 {L} 1", "ver 0"] if small else [])
        lines += [iv, f"feedb 0 B 0 {L}", f"feedb 0 S 0 {n}", f"feedb 0 S {n} {L - n}", "ver 0"]
        lines += [iv, f"feedb 0 S 0 {L - 1}", "ver 0", f"feedb 0 S 0 {L}", "ver 0", f"feedb 0 S {L - 1} 1", "ver 0"]
        G(lines, 20)
        if p is many or c.thorough and tiny:       # more calls than a counter of 16 bits counts
            G([iv, f"feedb 0 S 0 {n + 3}"] + ["feed 0 -"] * 66000 + ["ver 0"] * 300 + [f"feedb 0 S {n + 3} {L - n - 3}", "ver 0"] * 2, 10 ** 3)
            G([iv, f"feedb 0 S 0 {n + 3}"] + ["ver 0"] * 66000 + [f"feedb 0 S {n + 3} {L - n - 3}"] + ["ver 0"] * 300, 10 ** 3)
            G([iv, f"feedb 0 S 0 {L}"] + [f"feedto 0 S 0 {L} 1", "ver 0"] * (66000 // L + 1), 10 ** 3)
            G([iv, f"feedb 0 B 0 {L}"] + [f"feedto 0 S 0 {L} 1", "ver 0"] * (66000 // L + 1) + ["ver 0"] * 300, 10 ** 3)
        if tiny:                                   # other message, other key, order of chunks, both signatures
            lines = [f"iver 0 {p.name} {pk} -", f"feedb 0 S2 0 {L}", "ver 0", f"iver 0 {p.name} {pk} -", f"feedb 0 S 0 {L}", "ver 0"]
            for o in (n, 5 * n, L // 2):
                lines += [iv, f"feedb 0 S 0 {o}", f"feedb 0 S2 {o} {L - o}", "ver 0"]
            G(lines)
    g = tour.Graph(c)
    keyed = [(p, sk, pk) for p, sk, pk, _ in data if p in TINY + three or p.name in FSETS]
    more = [(p, sk, sk[4 * p.n:]) for p, sk in zip(TINY + three, c.spec([("key", p, rbytes(r, 3 * p.n).hex()) for p in TINY + three]))]
    walks = tour_blocks(g, subjects(keyed, r, more), tour.verifying, tour.or_clear(tour.verifying), r, parts=2)
    c.proofs("IndStream", SHAPES_IND, ["InitV"], ["IndInitV"])
    c.model("MCStream", note="Stream refines Api")
    if c.thorough:
        c.model("MCStream", cfg="MCStreamD.cfg", note="Stream refines Api, shake", timeout=1800)
    c.check_runs(jobs_of("feed", b, blocks, SPEC, bins=24) + jobs_of("walk", b, walks, OWNSPEC, bins=12))
    return c.finish()


# ---------------------------------------------------------------------- C05
def gen_keys(c, b, sets, r):
    """Key pairs made by the library: [(P, sk, pk)]; where that does not work, by the specification."""
    sets = [p for p in sets if b.internal or p.base is None]
    scripts = [[] for _ in range(8)]
    for i, p in enumerate(sets):
        scripts[i % 8] += p.decl() + [gen_line(p, "ok:" + rbytes(r, 3 * p.n).hex())]
    out = {}
    def one(s):
        run = c.drive(b, [s])
        return vf.read_events(run.traces[0], 0, 10 ** 9)
    for evs in c.pool.map(one, [s for s in scripts if s]):
        for e in evs:
            if e["e"] == "gen" and e["ret"] == 1:
                out[e["ps"]] = (e["sk"], e["pk"])
    for n, (s, k) in list(out.items()):
        if len(s) != 8 * std_or(sets, n).n or s[4 * std_or(sets, n).n:] != k:
            del out[n]
    lost = [p for p in sets if p.name not in out]
    if lost:
        c.extra["keys_not_from_the_library"] = [p.name for p in lost]
        for p, s in zip(lost, c.spec([("key", p, rbytes(r, 3 * p.n).hex()) for p in lost])):
            out[p.name] = (s, s[4 * p.n:])
    return [(p, *out[p.name]) for p in sets]


def std_or(sets, name):
    return [p for p in sets if p.name == name][0]


def sign_verify(p, sk, pk, m, opt=None, c0=0, chunk=None, fchunk=None):
    m = m if isinstance(m, str) else hexs(m)
    return [f"isign {c0} {p.name} {sk} {m} " + (f"ok:{opt.hex()}" if opt else "null"), f"signq {c0} {chunk or p.L}", f"take V {c0}",
            f"iver {c0} {p.name} {pk} {m}", f"feedto {c0} V 0 {p.L} {fchunk or p.L}", f"ver {c0}"]


def c05(c):
    b = c.compile("O2")
    r = rng("c05")
    shapes = [shape(f, n, *x) for f, n in FAMN for x in ((2, 14, 4, 2), (35, 1, 33, 33), (3, 5, 64, 16), (2, 2, 64, 8), (1, 1, 18, 2))]
    shapes += spiked(c)
    keyed = gen_keys(c, b, [std(n) for n in STD] + TINY + EXH + shapes, r)
    if c.extra.get("keys_not_from_the_library"):
        c.violation("keygen", f"no usable key pair from ts_gen_key for {c.extra['keys_not_from_the_library']}")
    sk2 = {}
    wants = [p for p, _, _ in keyed if p.name not in SSETS]
    for p, k in zip(wants, c.spec([("key", p, rbytes(r, 3 * p.n).hex()) for p in wants])):
        sk2[p.name] = k                                    # keys in the standard format, made elsewhere
    blocks = []
    for p, sk, pk in keyed:
        keys = [(sk, pk)] + ([(sk2[p.name], sk2[p.name][4 * p.n:])] if p.name in sk2 else [])
        for sk, pk in keys:
            skb = bytes.fromhex(sk)
            B = lambda m, **kw: blocks.append(Block(p, sign_verify_some_way(p, sk, pk, m, r, **kw), cost_sign(p) + cost_verify(p)))
            if p in EXH:
                ms, _ = every_position(p, skb, r)
                for i in range(0, len(ms), 32):
                    blocks.append(Block(p, sum((sign_verify_some_way(p, sk, pk, m, r, v=r.randrange(3)) for m in ms[i:i + 32]), []), 32 * cost_sign(p)))
                blocks.append(Block(p, interleave([sum((sign_verify_some_way(p, sk, pk, r.choice(ms), r, opt=rbytes(r, p.n), c=2 * j, v=2 * j + 1, buf=f"V{j}")
                                                        for _ in range(3)), []) for j in range(5)], r), 20 * cost_sign(p)))
                continue
            if p in TINY:
                lens = list(range(0, 290)) + [511, 512, 513, 1000, 4095, 4096, 4097, 65535, 65536, 65537]
                for i in range(0, len(lens), 40):
                    blocks.append(Block(p, sum((sign_verify_some_way(p, sk, pk, rbytes(r, x), r, opt=rbytes(r, p.n) if x % 2 else None)
                                                for x in lens[i:i + 40]), []), 40 * cost_sign(p)))
                B("(5a*1500001)")
                B("null")
                B("null", opt=rbytes(r, p.n))
                continue
            ex = scen.extreme_messages(p, skb, r, 3000 if not c.thorough else 40000)
            goals = sorted(ex)
            r.shuffle(goals)
            if p.name in SSETS and not c.thorough:
                goals = goals[:2]
            elif p.base and not c.thorough:
                goals = goals[:3]
            for g in goals:
                B(ex[g])
            B(b"" if p.name in SSETS else rbytes(r, r.randint(1, 200)), opt=rbytes(r, p.n))
            if p.name in FSETS:
                B(b"")
                for x in (111, 112, 127, 128, 135, 136, 200000):
                    B(rbytes(r, x) if x < 1000 else f"(07*{x})", opt=rbytes(r, p.n))
    jobs = jobs_of("signverify", b, blocks, {})
    # very long messages
    long = [(TINY[0], 2 ** 32 + 5), (TINY[1 + vf.SEED % 2], 2 ** 32 + 1), (TINY[3 + vf.SEED % 3], 2 ** 32 + 3), (TINY[0], 2 ** 29 + 5), (TINY[2], 2 ** 29 - 40)]
    if c.thorough:
        long += [(p, 2 ** 32 + 77) for p in TINY]
    kd = {p.name: (sk, pk) for p, sk, pk in keyed}
    jobs = sum((jobs_of(f"long{i}", b, [Block(p, sign_verify(p, *kd[p.name], "(%02x*%d)" % (r.randrange(256), x)), 1e9)], {}, timeout=850)
                for i, (p, x) in enumerate(long) if p.name in kd), []) + jobs
    # signatures made by one build, verified by another
    cfgs = dict(O0=(ALLP, "-O0"), small=(dict(ALLP, TS_SHA2_OPTIMIZATION=0, TS_SHAKE256_OPT=2), "-Os"),
                opt1=(dict(ALLP, TS_SHAKE256_OPT=1), "-O2"), clang=(ALLP, "-O2"))
    kk = [x for x in keyed if x[0].name in FSETS or x[0] in TINY]
    other = {}
    for nm, (cfg, o) in cfgs.items():
        other[nm] = c.compile(nm, cfg, cc="clang" if nm == "clang" else "gcc", flags=(o,))
    for nm, ob in other.items():
        for a, v, tag in ((b, ob, "O2-" + nm), (ob, b, nm + "-O2")):
            blocks = []
            for i, (p, sk, pk) in enumerate(kk):
                m = b"across builds %d" % i
                blocks.append(Block(p, [f"isign 0 {p.name} {sk} {m.hex()} null", f"signq 0 {p.L}", "zero 0"]))
            jobs.append(dict(name="cross." + tag, run=cross(c, a, v, have(b, blocks), kk, tag), binary=v, scripts=[], env={}))
    c.check_runs(jobs)
    return c.finish()


def cross(c, a, v, blocks, kk, tag):
    """Signs with build a; verifies with build v; one trace."""
    s1 = pack(blocks, 1)[0]
    r1 = c.drive(a, [s1])
    evs = vf.read_events(r1.traces[0], 0, 10 ** 9)
    pk = {p.name: (p, k) for p, _, k in kk}
    s2, last = [], None
    decl = set()
    for e in evs:
        if e["e"] == "isign":
            last = e
        if e["e"] == "sign" and last:
            p, k = pk[last["ps"]]
            if p.base and p.name not in decl:
                decl.add(p.name)
                s2 += p.decl()
            s2 += [f"buf W {e['out'] or '-'}", f"iver 1 {p.name} {k} {last['msg'] or '-'}", f"feedto 1 W 0 {len(e['out']) // 2} 777", "ver 1"]
            last = None
    r2 = c.drive(v, [s2])
    t = r1.traces[0] + ".cat"
    with open(t, "w") as f:
        for x in (r1.traces[0], r2.traces[0]):
            f.write(open(x).read())
    os.rename(t, r2.traces[0])
    r2.scripts = [s1 + ["# other build"] + s2]
    if r1.rc != 0:
        r2.rc, r2.err = r1.rc, r1.err
    return r2


# ---------------------------------------------------------------------- C06
def flip_hex(h, byte, mask):
    b = bytearray(bytes.fromhex(h))
    b[byte] ^= mask
    return bytes(b).hex()


def interesting_nodes(p, r, few):
    """Node numbers of a signature: R, per FORS tree the secret and path nodes, per layer chains and path nodes."""
    out = {0}
    o = 1
    for i in range(p.k):
        out |= {o, o + 1 + r.randrange(p.t)} | ({o + p.t} if i in (0, p.k - 1) or not few else set())
        o += p.t + 1
    for j in range(p.d):
        out |= {o + r.randrange(2 * p.n), o + 2 * p.n + r.randrange(3), o + p.wl + r.randrange(p.hp)}
        if not few or j in (0, p.d - 1):
            out |= {o, o + 2 * p.n, o + 2 * p.n + 1, o + 2 * p.n + 2, o + p.wl, o + p.wl + p.hp - 1, o + 2 * p.n - 1}
        o += p.wl + p.hp
    return sorted(out)


def false_roots(root, n, r):
    """Roots that differ from the real one in several bytes, in ways a careless comparison overlooks."""
    x = bytes.fromhex(root)
    out = []
    for _ in range(8):
        i, j = sorted(r.sample(range(n), 2))
        m = r.randrange(1, 256)
        y = bytearray(x); y[i] ^= m; y[j] ^= m; out.append(y)                            # same xor
        y = bytearray(x); y[i] = (y[i] + m) % 256; y[j] = (y[j] - m) % 256; out.append(y)    # same sum
        y = bytearray(x); y[i], y[j] = y[j], y[i]; out.append(y)                         # same bytes
    for w in (2, 4, 8):                                                                  # the same in words of several sizes
        i, j = sorted(r.sample(range(n // w), 2))
        y = bytearray(x); y[i * w:i * w + w], y[j * w:j * w + w] = y[j * w:j * w + w], y[i * w:i * w + w]; out.append(y)
        y = bytearray(x); m = rbytes(r, w)
        for k in range(w):
            y[i * w + k] ^= m[k]; y[j * w + k] ^= m[k]
        out.append(y)
    out += [bytes(n), b"\xff" * n, bytes(255 - b for b in x), x[::-1], x[1:] + x[:1], x[-1:] + x[:-1], x[:n // 2] + bytes(n - n // 2),
            bytes(n // 2) + x[n // 2:], x[:-1] + bytes([255 - x[-1]]), bytes([x[0] ^ 128]) + x[1:], bytes(b ^ 128 for b in x), bytes(b ^ 1 for b in x)]
    return [bytes(y).hex() for y in out if bytes(y) != x]


def c06(c):
    b = c.compile("O2")
    r = rng("c06")
    mode = dict(SIGMODE="learn", VALMODE="spec", KEYMODE="learn")
    c.model("MCBits", note="MCBits: digests cut up, every shape; checksums")
    xs = spiked(c)
    sets = TINY + EXH + [std(n) for n in STD] + [p for p in xs if p.L < 10000] + (xs[:6] if c.thorough else r.sample(xs[:6], 2))
    data = spec_keys_and_sigs(c, [(p, rbytes(r, 3 * p.n), [rbytes(r, 150 if p in TINY else 11), b"other"] if p.name not in SSETS else [rbytes(r, 11)],
                                   rbytes(r, p.n)) for p in sets])
    blocks = []
    for p, sk, pk, ms in data:
        (m, s), L, n = ms[0], p.L, p.n
        mh = m.hex()
        iv = f"iver 0 {p.name} {pk} {mh}"
        pre = [f"buf S {s}"]
        cv = cost_verify(p)

        def G(lines, count):
            per = 500 if cv < 5000 else 60
            groups = [[]]
            for x in lines:
                if len(groups[-1]) >= per:
                    groups.append([])
                groups[-1].append(x)
            for g in groups:
                blocks.append(Block(p, pre + sum(g, []), len(g) * cv))
        def one(ivl, byte=None, mask=0):
            """The signature, changed in one byte, whole or in pieces."""
            x = r.random()
            cuts = [] if x < .6 else [r.randrange(1, L)] if x < .8 else sorted(r.sample(range(1, L), 3)) if x < .95 else sorted(r.sample(range(1, L), 30))
            if byte is not None and .6 < x < .7:
                cuts = [byte] if byte else [1]
            elif byte is not None and .7 < x < .8 and byte + 1 < L:
                cuts = [byte + 1]
            out = [ivl]
            for a, z in zip([0] + cuts, cuts + [L]):
                out.append(f"feedb 0 S {a} {z - a}" + (f" {byte - a} {mask}" if byte is not None and a <= byte < z else ""))
            return out + ["ver 0"]
        lines = [one(iv)]
        if p in TINY:
            for i in range(L):
                masks = [1 << x for x in range(8)] if c.thorough else [1 << r.randrange(8)]
                lines += [one(iv, i, k) for k in masks]
            lines += [one(iv, r.randrange(L), 255) for _ in range(20)]
        elif p in EXH:
            for i in range(0, p.nodes):
                lines.append(one(iv, i * n + r.randrange(n), 1 << r.randrange(8)))
        else:
            nodes = range(p.nodes) if c.thorough else interesting_nodes(p, r, True)
            for i in nodes:
                lines.append(one(iv, i * n + r.choice([0, n - 1, r.randrange(n)]), 1 << r.randrange(8)))
        # the public key: each byte of either half
        for i in range(2 * n):
            lines.append(one(f"iver 0 {p.name} {flip_hex(pk, i, 1 << r.randrange(8))} {mh}"))
        lines.append(one(f"iver 0 {p.name} {pk[2 * n:] + pk[:2 * n]} {mh}"))
        # the message and its length
        for i in range(len(m)):
            lines.append(one(f"iver 0 {p.name} {pk} {flip_hex(mh, i, 1 << r.randrange(8))}"))
        for x in (mh[:-2] or "-", mh + "00", mh + "80", mh + mh[-2:], "-", mh[2:] or "-", "00" + mh, mh + "00" * 64, mh + "00" * 128, mh + "00" * 136, mh + mh):
            lines.append(one(f"iver 0 {p.name} {pk} {x}"))
        G(lines, 1)
        # splices: blocks exchanged, repeated, moved; parts of another signature of the same key
        if len(ms) > 1:
            pre2 = pre + [f"buf O {ms[1][1]}"]
            lines = []
            parts = [(0, 1), (1, p.k * (p.t + 1)), (1, p.t + 1), (1 + p.k * (p.t + 1), p.wl + p.hp), (1 + p.k * (p.t + 1), p.wl),
                     (1 + p.k * (p.t + 1) + p.wl, p.hp), (1 + p.k * (p.t + 1) + (p.d - 1) * (p.wl + p.hp), p.wl + p.hp)]
            for o, l in parts + [(x, 1) for x in interesting_nodes(p, r, True)[:20]]:
                lines += [f"splice V S O {o * n} {l * n}", iv, f"feedb 0 V 0 {L}", "ver 0"]
                lines += [f"iver 0 {p.name} {pk} {ms[1][0].hex()}", f"feedb 0 V 0 {L}", "ver 0"]
            nodes = [s[2 * n * i:2 * n * (i + 1)] for i in range(p.nodes)]
            for _ in range(12 if p.base else 6):
                t = list(nodes)
                i = r.randrange(p.nodes - 1)
                j = i + 1 if r.random() < .5 else r.randrange(p.nodes)
                t[i], t[j] = t[j], t[i]
                lines += [f"buf V {''.join(t)}", iv, f"feedb 0 V 0 {L}", "ver 0"]
            blocks.append(Block(p, pre2 + lines, 80 * cv))
        # a signature that leads to the root except for one byte: made for a key whose root differs there
        cs = cost_sign(p)
        bytes_ = range(n) if p.name not in SSETS or c.thorough else [r.randrange(n)]
        lines = []
        roots = [flip_hex(sk, 3 * n + i, 1 << r.randrange(8))[6 * n:] for i in bytes_]
        roots += false_roots(sk[6 * n:], n, r) if p.base else r.sample(false_roots(sk[6 * n:], n, r), 4 if p.name in FSETS else 1)
        for i, x in enumerate(roots):
            skx = sk[:6 * n] + x
            lines += sign_verify(p, skx, skx[4 * n:], b"false root %d" % i)
        for i in range(0, len(lines), 24):
            blocks.append(Block(p, lines[i:i + 24], 4 * cs))
        if p in TINY:                              # long message, changes far in
            big = rbytes(r, 70001).hex()
            blocks.append(Block(p, sign_verify(p, sk, pk, big) +
                                sum(([f"iver 0 {p.name} {pk} {flip_hex(big, x, 1)}", f"feedb 0 V 0 {L}", "ver 0"]
                                     for x in (0, 63, 64, 65535, 65536, 70000)), []) +
                                [f"iver 0 {p.name} {pk} {big[:-2]}", f"feedb 0 V 0 {L}", "ver 0",
                                 f"iver 0 {p.name} {pk} {big[:2 * 65536]}", f"feedb 0 V 0 {L}", "ver 0",
                                 f"iver 0 {p.name} {pk} {big[:2 * (70001 - 65536)]}", f"feedb 0 V 0 {L}", "ver 0"], 20 * cs))
    # roots with bytes at which a careless comparison might stop
    subj = TINY + [p for p in xs if (p.k, p.t, p.h) == (2, 3, 6)]
    cand = {p.name: [] for p in subj}
    ask = [p for p in subj for _ in range(64)]
    for p, k in zip(ask, c.spec([("key", p, rbytes(r, 3 * p.n).hex()) for p in ask])):
        cand[p.name].append(k)
    for p in subj:
        root = lambda k: bytes.fromhex(k[6 * p.n:])
        first = lambda k, v: root(k).index(v) if v in root(k) else 99
        for sk in {min(cand[p.name], key=lambda k: first(k, 0)), min(cand[p.name], key=lambda k: first(k, 255)), min(cand[p.name], key=lambda k: first(k, 10)),
                   max(cand[p.name], key=lambda k: root(k).count(0)), max(cand[p.name], key=lambda k: root(k).count(255))}:
            lines = sign_verify(p, sk, sk[4 * p.n:], b"odd root")
            for i in range(p.n):
                skx = flip_hex(sk, 3 * p.n + i, r.choice([1 << r.randrange(8), 255, 128]))
                lines += sign_verify(p, skx, skx[4 * p.n:], b"odd root %d" % i)
            blocks.append(Block(p, lines, p.n * cost_sign(p)))
    # a length that is the same modulo 2^32
    jobs = []
    for i, (p, sk, pk, ms) in enumerate(data):
        if p in ([TINY[0], TINY[2], TINY[3 + vf.SEED % 3]] if not c.thorough else TINY):
            by = "%02x" % r.randrange(256)
            for x, y in ((5, 2 ** 32 + 5),) if not c.thorough else ((5, 2 ** 32 + 5), (0, 2 ** 32), (77, 2 ** 29 + 77), (9, 2 ** 33 + 9), (1, 2 ** 31 + 1)):
                jobs += jobs_of(f"long{i}", b, [Block(p, sign_verify(p, sk, pk, by * x or "-") + [f"iver 0 {p.name} {pk} ({by}*{y})", f"feedb 0 V 0 {p.L}", "ver 0"])],
                                mode, timeout=850)
    c.check_runs(jobs + jobs_of("forge", b, blocks, mode, bins=24))
    return c.finish()


# ---------------------------------------------------------------------- C07
def abandon(r, p, sk, pk, sig, c0):
    """An operation of some kind left at some point."""
    k = r.randrange(5)
    if k == 0:
        return [f"isign {c0} {p.name} {sk} {hexs(rbytes(r, 5))} null", f"sign {c0} {r.randrange(p.L)}"]
    if k == 1:
        return [f"isign {c0} {p.name} {sk} {hexs(rbytes(r, 5))} ok:{rbytes(r, p.n).hex()}"]
    if k == 2:
        return [f"buf AB{c0} {sig}", f"iver {c0} {p.name} {pk} 00", f"feedb {c0} AB{c0} 0 {r.randrange(p.L)}"]
    if k == 3:
        return [f"buf AB{c0} {sig}", f"iver {c0} {p.name} {pk} 616263", f"feedb {c0} AB{c0} 0 {p.L}"]
    return [f"isign {c0} {p.name} {sk} {hexs(rbytes(r, 5))} null", f"sign {c0} {p.L + 1}"]


def c07(c):
    b = c.compile("O2")
    b0 = c.compile("O0", flags=("-O0",))
    c.model("MCAdr", note="MCAdr: no hash sees a byte of an earlier address")
    r = rng("c07")
    fast = TINY + [shape(f, n, 3, 3, 6, 3) for f, n in FAMN]
    real = [std(n) for n in STD]
    keyed = {p.name: (p, sk, pk) for p, sk, pk in gen_keys(c, b, fast + real, r)}
    second = {p.name: (p, sk, pk) for p, sk, pk in gen_keys(c, b, fast + [p for p in real if p.name in FSETS], r)}
    blocks = []
    names = [p.name for p in fast if p.name in keyed]
    fills = ["0", "255", "1", "170"] + [f"r{i}" for i in range(8)]

    def ops_for(p, sk, pk, c0, kind, m, chunkr=None, buf=None):
        """One whole operation as a list of commands, to be interleaved."""
        n, L = p.n, p.L
        if kind == "sign":
            return [f"isign {c0} {p.name} {sk} {hexs(m)} null"] + [f"sign {c0} {k}" for k in splits(r, L, chunkr or style_mix(n))] + [f"sign {c0} 9"]
        o, out = 0, []
        for k in splits(r, L, chunkr or style_mix(n)):
            out.append(f"feedb {c0} {buf or 'R' + p.name} {o} {k}")
            o += k
        return [f"iver {c0} {p.name} {pk} {hexs(m)}"] + out + [f"ver {c0}"]

    def reference(p, sk, pk, m, c0):
        return [f"fresh {c0}", f"isign {c0} {p.name} {sk} {hexs(m)} null", f"sign {c0} {p.L + 5}", f"take R{p.name} {c0}"]

    def other_self(q, qs, qp):
        """Context 0 used with another key and another message, then left at some point."""
        x = r.random()
        mm = b"isolatec" if r.random() < .5 else b"isolated"
        if x < .6:
            return [f"iver 0 {q.name} {qp} {mm.hex()}", f"feedb 0 R{q.name} 0 {r.choice([0, 1, q.n, q.L - 1, q.L, q.L + 0])}"] + ["ver 0"] * r.randrange(2)
        return [f"isign 0 {q.name} {qs} {mm.hex()} null"] + [f"sign 0 {r.choice([0, 1, q.n, q.L])}"] * r.randrange(2)

    def battery(p, others, reps, heavy):
        p, sk, pk = keyed[p.name]
        m = b"isolated"
        ls = reference(p, sk, pk, m, 39)
        x3 = rbytes(r, 3 * p.n).hex()
        ls += [gen_line(p, "ok:" + x3)]
        for i in range(reps):
            f = fills[i % len(fills)] if i < len(fills) else f"r{r.randrange(10 ** 6)}"
            ls += [f"keep {r.randrange(2)}"]
            if i % 3 == 1 and p.name in second:     # the same set with another key, and another message of the same length
                q, qs, qp = second[p.name]
                ls += other_self(q, qs, qp)
            elif r.random() < .6 or i < len(fills):
                ls += [f"smear {r.randrange(256)}", f"fill 0 {f}"]
            else:
                q, qs, qp = keyed[r.choice(others)]
                ls += abandon(r, q, qs, qp, "00" * q.L, 0)
            if r.random() < .5 or i % 2 == 0:
                ls += [f"smear r{r.randrange(256)}"] + ops_for(p, sk, pk, 0, "sign", m, (lambda rr: p.L) if heavy else None)
            if i % 2 == 1 or not heavy:
                if r.random() < .5:
                    ls += [f"fill 0 r{r.randrange(10 ** 6)}"]
                ls += [f"smear r{r.randrange(256)}"] + ops_for(p, sk, pk, 0, "verify", m)
            if not heavy or i % 4 == 0:
                ls += [f"smear {r.randrange(256)}", gen_line(p, "ok:" + x3, r.random() < .5)]
        return ls + ["keep 0"]
    small_names = names
    for p in fast:
        if p.name not in keyed:
            continue
        for part in range(3):
            others = r.sample(small_names, 4)
            blocks.append(Block([keyed[x][0] for x in set(others + [p.name])], battery(p, others, 14 if not c.thorough else 80, False), cost_sign(p) * 40))
    for p in real:
        others = [x for x in (small_names[:2] if b.internal else [])] + ["sha2_128f", "shake_256f", "sha2_256f", "shake_128f", "sha2_192f"]
        others = [x for x in others if x in keyed]
        heavy = p.name in SSETS
        blocks.append(Block([keyed[x][0] for x in set(others + [p.name])],
                            battery(p, others, (2 if heavy else 5) * (4 if c.thorough else 1), True), cost_sign(p) * (4 if heavy else 8)))
    # every kind of leftover on purpose: stop one operation at every node of a tiny signature, start another kind in its place
    for p in TINY:
        if p.name not in keyed:
            continue
        p, sk, pk = keyed[p.name]
        q, qs, qp = keyed[r.choice([x for x in names if x != p.name])]
        ls = reference(q, qs, qp, b"isolated", 39) + reference(p, sk, pk, b"isolated", 38)
        for j in range(0, p.nodes + 1):
            o = j * p.n
            ls += [f"isign 0 {p.name} {sk} 77 null", f"sign 0 {o}"] + ops_for(q, qs, qp, 0, "sign" if j % 2 else "verify", b"isolated", lambda rr: 10 ** 6)
            ls += [f"iver 0 {p.name} {pk} {b'isolated'.hex()}", f"feedb 0 R{p.name} 0 {min(o + 1, p.L)}"] + ops_for(q, qs, qp, 0, "verify" if j % 2 else "sign", b"isolated", lambda rr: 10 ** 6)
        blocks.append(Block([p, q], ls, cost_sign(p) * 2 * p.nodes))
    # interleavings of several contexts in one thread
    for rep in range(10 if not c.thorough else 60):
        pick = r.sample(names, 4) if b.internal and names else []
        pick = (pick + r.sample(["sha2_128f", "shake_128f", "sha2_192f", "shake_192f", "sha2_256f", "shake_256f"], 1 if b.internal else 3))
        if rep % 2:
            pick = pick + pick[:2]
        ls, todo = [], []
        for x in dict.fromkeys(pick):
            p, sk, pk = keyed[x]
            ls += reference(p, sk, pk, b"isolated", 39)
        for i, x in enumerate(pick):
            p, sk, pk = keyed[x]
            todo.append(ops_for(p, sk, pk, 2 * i, "sign", b"isolated"))
            todo.append(ops_for(p, sk, pk, 2 * i + 1, "verify", b"isolated"))
        while any(todo):
            t = r.choice([t for t in todo if t])
            for _ in range(r.choice([1, 1, 1, 2, 5])):
                if t:
                    ls.append(t.pop(0))
            if r.random() < .01:
                p, sk, pk = keyed[r.choice(pick)]
                if p.name not in SSETS:
                    ls.append(gen_line(p, "ok:" + "5a" * 3 * p.n))
        blocks.append(Block([keyed[x][0] for x in set(pick)], ls, sum(cost_sign(keyed[x][0]) for x in pick) * 2))
    g = tour.Graph(c)
    subs = subjects([keyed[x] for x in keyed if x not in SSETS], r, second.values())
    r.shuffle(subs)
    pairs = [(subs[i], subs[(i + 1) % len(subs)]) for i in range(0, len(subs), 1 if c.thorough else 2)]
    jobs = jobs_of("reuse", b, blocks, {})
    jobs += jobs_of("walks", b, tour_pairs(g, pairs, tour.beginning, tour.anything, r), OWNSPEC, bins=10)
    jobs += jobs_of("reuse-O0", b0, [x for x in blocks if x.cost < 3e6][:20], {}, bins=8)
    # threads: free-running, under the race detector, and under schedules of our own that switch in the middle of calls
    variants = {}
    for x in keyed:
        if x in SSETS:
            continue
        p, sk, pk = keyed[x]
        _, sk2, pk2 = second[x]
        variants[x] = [(sk, pk, b"isolated", "33"), (sk2, pk2, b"isolated", "44"), (sk, pk, b"other message", "33")]

    def worker(use, rounds, style):
        ls = sum((keyed[x][0].decl() for x in dict.fromkeys(use)), ["keep 1"])
        for x in use:
            p = keyed[x][0]
            todo = []
            for v in range(3):
                sk, pk, m, g = variants[x][v]
                ls += [f"isign 1 {p.name} {sk} {m.hex()} null", f"sign 1 {p.L}", f"take R{p.name}.{v} 1"]
            for i in range(rounds(p)):
                sk, pk, m, g = variants[x][r.randrange(3)]
                ls += ops_for(p, sk, pk, 2, "sign", m, style)
                v = r.randrange(3)
                sk, pk, m, g = variants[x][v]
                ls += ops_for(p, sk, pk, 3, "verify", m, style, f"R{p.name}.{v}")
                if p.base and i % 3 == 0:
                    ls += [gen_line(p, "ok:" + g * 3 * p.n)]
        return ls
    anysize = lambda rr: rr.randint(1, 5000)
    th = c.compile("tsan", cc="clang", flags=("-O1", "-g", "-fsanitize=thread"), hflags=("-DSANITIZED",))
    for tag, bin_, rounds in (("threads", b, 2), ("threads-tsan", th, 1)):
        for rd in range(rounds * (4 if c.thorough else 1)):
            pick = [x for x in ("sha2_128f", "shake_128f", "sha2_256f", "shake_256f", "sha2_192f", "shake_192f") if x in variants]
            small = r.sample(names, 2) if b.internal else []
            scripts = [worker([pick[(t + rd) % len(pick)], pick[(t + 1) % len(pick)]] + small, lambda p: 1 if p.base is None else 8, anysize)
                       for t in range(6)]
            jobs.append(dict(name=f"{tag}.{rd}", binary=bin_, scripts=scripts, env={}, ref=True, timeout=400,
                             drive_env=dict(TSAN_OPTIONS="halt_on_error=1 exitcode=66 report_signal_unsafe=0")))
    sc = c.compile("sched", flags=("-O1",), libflags=("-fsanitize-coverage=trace-pc",), hflags=("-DSCHED",))
    for rd in range(16 if not c.thorough else 200):
        if b.internal:
            same = r.choice(names)                  # some schedules on one set, others on several
            use = [[same] if rd % 3 == 0 else r.sample(names, 2) for t in range(2 + rd % 3)]
        else:
            use = [[["sha2_128f", "shake_128f", "sha2_192f", "sha2_256f"][(rd + t) % 4]] for t in range(2 + rd % 2)]
        scripts = [worker(u, lambda p: 6 if p.base else 1, anysize if rd % 2 else style_mix(16) if b.internal else anysize) for u in use]
        jobs.append(dict(name=f"schedule.{rd}", binary=sc, scripts=scripts, env={}, ref=True, timeout=400, drive_env=dict(VF_SCHED=str(vf.SEED * 1000 + rd))))
    ls = sum((keyed[x][0].decl() for x in variants), [])
    for x in variants:
        p = keyed[x][0]
        for sk, pk, m, g in variants[x]:
            ls += [f"isign 0 {p.name} {sk} {m.hex()} null", f"sign 0 {p.L}"]
            if p.base and m == b"isolated":
                ls += [gen_line(p, "ok:" + g * 3 * p.n)]
    rr = c.drive(b, [ls])
    reftrace = c.work + "/reference"
    os.rename(rr.traces[0], reftrace)

    def with_ref(t):
        u = t + ".ref"
        with open(u, "w") as f:
            seen = set()
            for x in (reftrace, t):
                for l in open(x):
                    if l.startswith('{"e":"ps"'):
                        if l in seen:
                            continue
                        seen.add(l)
                    f.write(l)
        os.replace(u, t)
        return t
    for j in jobs:
        if j.get("ref"):
            j["post"] = with_ref
    c.check_runs(jobs)
    return c.finish()


# ---------------------------------------------------------------------- C08
def c08(c):
    b = c.compile("O2")
    b0 = c.compile("O0", flags=("-O0",))
    bc = c.compile("clang", cc="clang", flags=("-O1",))
    r = rng("c08")
    sets = TINY + [shape(f, n, 2, 2, 6, 3) for f, n in FAMN]
    keyed = gen_keys(c, b, sets + [std(n) for n in STD], r)
    blocks = []
    many = r.choice(TINY)
    W = "00ff10"

    def bad_on_sign(p):
        return [r.choice([f"feed 0 {W}", f"feed 0 {'00' * p.n}", "feed 0 -", f"feedb 0 J 0 {r.choice([1, p.n - 1, p.n, p.n + 1, 3 * p.n, p.L, p.L + p.n])}"]), "ver 0"]

    def bad_on_ver(p):
        return [f"sign 0 {r.choice([0, 1, 5, p.n - 1, p.n, p.n + 1, 3 * p.n, p.L, p.L + 7, 2 ** 31, 2 ** 32 - 1])}"]
    for p, sk, pk in keyed:
        m = "770077"
        real = p.base is None
        ls = [f"zero 5", "sign 5 9", "sign 5 0", "feed 5 -", "feed 5 00", "ver 5", f"sign 5 {2 ** 32 - 1}"]
        ls += [f"buf J {rbytes(r, p.L + p.n).hex()}"]
        ls += [f"isign 1 {p.name} {sk} {m} null", f"sign 1 {p.L + 1}", "take V 1", "feed 1 -", "feed 1 00", "ver 1", f"feedb 1 V 0 {p.L}", "ver 1", "sign 1 4",
               f"feedb 1 J 0 {p.n}", "ver 1", "sign 1 4"]
        iv, isg = f"iver 0 {p.name} {pk} {m}", f"isign 0 {p.name} {sk} {m} null"
        if not real:
            # at every offset: wrong-phase calls between two parts
            step = 1 if p in TINY else 5
            for o in range(0, p.L + 1, step):
                if p in TINY or o % 3 == 0 or o % p.n < 2:
                    ls += [isg, f"sign 0 {o}"] + bad_on_sign(p) + [f"sign 0 {p.L}", "ver 0"]
                    ls += [iv, f"feedb 0 V 0 {o}"] + bad_on_ver(p) + [f"feedb 0 V {o} {p.L - o}"] + bad_on_ver(p) + ["ver 0"]
            # all along one operation
            for k in (1, 7, p.n, p.n + 3):
                t = [isg]
                for x in splits(r, p.L, lambda rr: k):
                    t += [f"sign 0 {x}"] + bad_on_sign(p)
                t += bad_on_sign(p) + ["sign 0 5"]
                u, o = [iv], 0
                for x in splits(r, p.L, lambda rr: k):
                    u += [f"feedb 0 V {o} {x}"] + bad_on_ver(p)
                    o += x
                ls += t + u + ["ver 0"] + bad_on_ver(p) * 3 + ["ver 0", f"feedb 0 J 0 3", "ver 0"] + bad_on_ver(p) + ["ver 0"]
            ls += [iv, f"feedb 0 J 0 {p.L}", "ver 0"] + bad_on_ver(p) * 3 + ["ver 0", f"feedb 0 V 0 {p.L}", "ver 0"]
        else:
            reps = 2 if p.name in FSETS else 1
            for _ in range(reps):
                t = [isg]
                for x in splits(r, p.L, style_mix(p.n)):
                    t += [f"sign 0 {x}"] + (bad_on_sign(p) if r.random() < .4 else [])
                u, o = [iv], 0
                for x in splits(r, p.L, style_mix(p.n)):
                    u += [f"feedb 0 V {o} {x}"] + (bad_on_ver(p) if r.random() < .4 else [])
                    o += x
                ls += t + bad_on_sign(p) + u + ["ver 0"] + bad_on_ver(p) + ["ver 0"]
        ls += ["zero 0", "sign 0 3", "feed 0 00", "ver 0", f"feedb 0 V 0 {p.L}", "ver 0", f"sign 0 {p.L}"]
        if p is many or c.thorough and p in TINY:       # more calls than a counter of 16 bits counts
            t = [f"isign 1 {p.name} {sk} {m} null", f"sign 1 {p.L + 1}", "take V 1"]
            blocks.append(Block(p, t + [iv, f"feedb 0 V 0 {p.n + 3}", "sign 0 3 66000", f"feedb 0 V {p.n + 3} {p.L - p.n - 3}", "ver 0", "sign 0 1 300", "ver 0"], 10 ** 6))
            blocks.append(Block(p, [isg, f"sign 0 {p.n + 3}"] + ["feed 0 0011"] * 66000 + ["ver 0"] * 300 + [f"sign 0 {p.L}", "sign 0 1"], 10 ** 6))
        blocks.append(Block(p, ls, cost_sign(p) * (3 if real else len(ls) / 5)))
    g = tour.Graph(c)
    small = [x for x in keyed if x[0].base or x[0].name in FSETS]
    walks = tour_blocks(g, subjects(small, r, gen_keys(c, b, [x[0] for x in small], r)), tour.wrong_phase, tour.anything, r)
    jobs = jobs_of("walk", b, walks, OWNSPEC, bins=12)
    jobs += jobs_of("walk-O0", b0, [x for x in walks if x.ps[0].base] if b0.internal else walks, OWNSPEC, bins=8)
    jobs += jobs_of("phase-O2", b, blocks, {}, bins=24)
    jobs += jobs_of("phase-O0", b0, [x for x in blocks if x.ps[0].base or x.ps[0].name in FSETS], {}, bins=12)
    jobs += jobs_of("phase-clang", bc, [x for x in blocks if x.ps[0] in TINY or x.ps[0].name in FSETS], {}, bins=8)
    c.check_runs(jobs)
    return c.finish()


# ---------------------------------------------------------------------- C09
def c09(c):
    b = c.compile("O2")
    b0 = c.compile("O0", flags=("-O0",))
    r = rng("c09")
    blocks = []
    sets = TINY + [std(n) for n in STD]
    for p in sets:
        sk = key(r, p)
        n = p.n
        heavy = p.name in SSETS
        full = f"sign 0 {p.L + 3}"
        m = hexs(rbytes(r, r.randint(1, 50)))
        I = lambda rg, mm=m, k=sk: f"isign 0 {p.name} {k.hex()} {mm} {rg}"
        seed = sk[2 * n:3 * n].hex()
        ls = [I("null"), full]
        ls += [I("ok:" + seed), full if not heavy else f"sign 0 {2 * n}"]
        o = rbytes(r, n).hex()
        ls += [I("ok:" + o), full if not heavy else f"sign 0 {5 * n}"]
        for x in ("00" * n, "ff" * n, "00" * (n - 1) + "01", "01" + "00" * (n - 1), seed[:-2] + "00", "00" * (n // 2) + o[n:]):
            ls += [I("ok:" + x), full if not heavy else f"sign 0 {n}"]
        for _ in range(6 if not heavy else 2):       # on contexts with a past
            ls += prelude(p, sk, r) + [I(r.choice(["null", "ok:" + o, "fail:" + o, "ok:" + seed])), f"sign 0 {n + 1}"]
            if r.random() < .5:
                ls += [f"smear r{r.randrange(256)}"] + [f"isign {j} {p.name} {sk.hex()} {m} {x}" for j, x in enumerate(["ok:" + o, "fail:" + o, "null", "ok:" + seed])] + \
                      [f"sign {j} {n}" for j in (2, 0, 3, 1)]
        fails = ["fail:" + rbytes(r, n).hex(), "fail:" + o, "fail:" + "00" * n, "fail:" + "ff" * n, "fail:" + rbytes(r, n // 2).hex()]
        for f in fails:
            ls += [I(f), full if not heavy else f"sign 0 {5 * n}"]
        ls += [I("null"), full if not heavy else f"sign 0 {5 * n}", I("ok:" + o), full if not heavy else f"sign 0 {5 * n}"]
        for i in range(n):                    # OptRand differing from another in one bit, at every byte
            ls += [I("ok:" + flip_hex(o, i, 1 << r.randrange(8))), f"sign 0 {n + 1}", "sign 0 1", f"sign 0 {n}"]
        for i in range(n):                    # from the public seed
            ls += [I("ok:" + flip_hex(seed, i, 1 << r.randrange(8))), f"sign 0 {n}"]
        for mm in ("-", "00", hexs(rbytes(r, 200)), "(ab*5000)"):
            ls += [I("null", mm), f"sign 0 {n}", I("ok:" + seed, mm), f"sign 0 {n}", I("fail:" + o, mm), f"sign 0 {n}", I("ok:" + o, mm), f"sign 0 {n}"]
        for i in range(0, 4 * n, n // 4):     # other keys
            k = bytes.fromhex(flip_hex(sk.hex(), i, 4))
            ls += [I("ok:" + o, m, k), f"sign 0 {n}", I("fail:" + o, m, k), f"sign 0 {n}", I("null", m, k), f"sign 0 {n}"]
        ls += ["smear 77", "fill 0 r5", I("fail:" + o), f"sign 0 {3 * n}", "smear r9", "fill 0 255", I("null"), f"sign 0 {3 * n}"]
        # all through a signature there is no further call of the random function
        if not heavy:
            ls += [I("ok:" + o)] + [f"sign 0 {k}" for k in splits(r, p.L, style_mix(n))] + ["sign 0 2"]
            ls += [gen_line(p, "ok:" + rbytes(r, 3 * n).hex())]
        blocks.append(Block(p, ls, cost_sign(p) * (3 if heavy else 12)))
    jobs = jobs_of("rng", b, blocks, {}, bins=18)
    jobs += jobs_of("rng-O0", b0, [x for x in blocks if x.ps[0].name not in SSETS], {}, bins=10)
    c.check_runs(jobs)
    return c.finish()
