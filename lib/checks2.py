"""The checks C10..C14."""
import os, itertools
import vf, scen, tour
from vf import ALLP, BuildError, ToolError
from scen import P, STD, FSETS, SSETS, FAMN, shape, std, rng, rbytes, key, hexs
from suites import *


def configs():
    """All 144 settings of tune.h."""
    out = []
    for l5, l3, (shake, sha2), s, o2, o3 in itertools.product((0, 1), (0, 1), ((1, 1), (0, 1), (1, 0)), (0, 1), (0, 1), (0, 1, 2)):
        out.append(dict(TS_SUPPORT_L5=l5, TS_SUPPORT_L3=l3, TS_SUPPORT_SHAKE=shake, TS_SUPPORT_SHA2=sha2, TS_SUPPORT_S=s,
                        TS_SHA2_OPTIMIZATION=o2, TS_SHAKE256_OPT=o3))
    return out


def cfg_name(g):
    return "L5={} L3={} SHAKE={} SHA2={} S={} SHA2_OPT={} SHAKE_OPT={}".format(*(g[k] for k in vf.FLAGNAMES))


def supported(g, p):
    """Which sets a setting enables (ParamSets.tla: Supported)."""
    return (g["TS_SUPPORT_SHA2"] if p.fam == "sha2" else g["TS_SUPPORT_SHAKE"]) and \
        (p.n == 16 or p.n == 24 and (g["TS_SUPPORT_L3"] or g["TS_SUPPORT_L5"]) or p.n == 32 and g["TS_SUPPORT_L5"]) and \
        (p.name in FSETS or g["TS_SUPPORT_S"])


def concat(c, name, runs, env=None):
    """One trace out of several runs (a run that broke down ends it)."""
    c.n += 1
    t = f"{c.work}/run{c.n}.0.trace"
    scripts, rc, err = [], 0, ""
    with open(t, "w") as f:
        for label, run in runs:
            scripts.append([f"# {label}"] + sum(run.scripts, []))
            seen = None
            for x in run.traces:
                for l in open(x):
                    f.write(l)
                    seen = l
            if run.rc != 0 or not seen or not seen.startswith('{"e":"end"'):
                rc, err = run.rc, f"{label}: {run.err}"
                if not seen or '"e":"fault"' not in seen:
                    f.write('{"e":"fault","signal":0}\n')
                break
    r = vf.Run(runs[0][1].binary, scripts, [t], rc, err, {}, 0)
    return dict(name=name, run=r, binary=runs[0][1].binary, scripts=[], env=env or {})


# ---------------------------------------------------------------------- C10
def c10(c):
    c.model("MCConfig")
    r = rng("c10")
    all_ = configs()
    keys, msgs, rnd = {}, {}, {}
    for n in STD:
        p = std(n)
        keys[n] = key(r, p)
        ex = scen.extreme_messages(p, keys[n], r, 2500)
        pick = ["forsmanymax", "midleaf", "fors0", "treehigh"]
        msgs[n] = [ex[g] for g in pick[:3 if n in FSETS else 1]]
        rnd[n] = rbytes(r, 3 * p.n)

    def script(p, salt):
        rr = rng("c10", p.name, salt)
        ls = [f"size {p.name}", f"fill 0 r{rr.randrange(1000)}"]
        gen = gen_line_(p, rnd[p.name])
        ls += [gen]
        for i, m in enumerate(msgs[p.name]):
            ls += [f"isign 0 {p.name} {keys[p.name].hex()} {m.hex()} null"]
            ls += [f"sign 0 {p.L + 9}"] if i else [f"sign 0 {k}" for k in splits(rr, p.L, lambda x: x.randint(1, p.L // 3))] + ["sign 0 3"]
        return ls

    def verify_script(p, sk, sig, m):
        pk = sk[4 * p.n:]
        bad = bytearray(bytes.fromhex(sig))
        bad[rng(p.name).randrange(p.L)] ^= 8
        return ["fill 1 r3", f"buf V {sig}", f"iver 1 {p.name} {pk} {m}", f"feedto 1 V 0 {p.L} {rng(p.name).randint(500, 3000)}", "ver 1",
                f"iver 1 {p.name} {pk} {m}", f"feedb 1 V 0 {p.L}", "ver 1",
                f"buf B {bytes(bad).hex()}", f"iver 1 {p.name} {pk} {m}", f"feedb 1 B 0 {p.L}", "ver 1"]
    # one real key and signature per set, from the specification: what every setting has to accept
    fs = [std(n) for n in STD]
    sks = c.spec([("key", p, rnd[p.name].hex()) for p in fs])
    sigs = c.spec([("sign", p, sk, b"all configurations".hex(), None) for p, sk in zip(fs, sks)])
    ver = {p.name: verify_script(p, sk, s, b"all configurations".hex()) for p, sk, s in zip(fs, sks, sigs)}

    # small shapes: messages of many lengths; the first setting signs all of them, the others some
    lens = list(range(0, 8)) + sorted(r.sample(range(8, 300), 60)) + [55, 56, 63, 64, 111, 112, 119, 120, 127, 128, 135, 136, 137, 255, 256, 257, 272, 511, 512, 1000, 4096]
    tk = c.spec([("key", p, rbytes(r, 3 * p.n).hex()) for p in TINY])
    pool = {p.name: (bytes.fromhex(k), [(rbytes(r, x), rbytes(r, p.n) if r.random() < .5 else None) for x in lens]) for p, k in zip(TINY, tk)}

    def tiny(p, i):
        rr = rng("c10", p.name, i)
        sk, ms = pool[p.name]
        ls = p.decl()
        for m, o in ms if i == 0 else rr.sample(ms, 14 if not c.thorough else 50):
            ls += sign_verify_some_way(p, sk, sk[2 * p.n:].hex(), m, rr, opt=o)
        return ls

    # S sets sign slowly: not in every setting (thorough: every one)
    def want_s(g, p):
        if c.thorough:
            return True
        small = not (g["TS_SUPPORT_SHA2"] and g["TS_SUPPORT_SHAKE"]) and \
            (g["TS_SUPPORT_L5"], g["TS_SUPPORT_L3"]) == {16: (0, 0), 24: (0, 1), 32: (1, 0)}[p.n]
        if p.fam == "shake":
            return (small and g["TS_SHA2_OPTIMIZATION"] == 0) or hash((cfg_name(g), p.name)) is None or \
                (g["TS_SHAKE256_OPT"] != 2 and rng(cfg_name(g), p.name).random() < .15)
        return small and g["TS_SHAKE256_OPT"] == 0 or rng(cfg_name(g), p.name).random() < .25
    runs = {n: [] for n in list(STD) + [p.name for p in TINY]}
    nsets = [0, 0]

    def one(ig):
        i, g = ig
        if c.violations and not c.thorough:
            return None
        try:
            b = c.compile_seq(f"cfg{i}", g)
        except BuildError as e:
            return (i, g, e)
        out = []
        for n in STD:
            p = std(n)
            if not supported(g, p):
                continue
            ls = list(ver[n])
            if n in FSETS or want_s(g, p):
                ls = script(p, i) + ls
                nsets[0] += 1
            nsets[1] += 1
            out.append((n, c.drive(b, [ls], timeout=400)))
        for p in TINY if b.internal else []:
            if supported(g, std(p.base)):
                out.append((p.name, c.drive(b, [tiny(p, i)], timeout=400)))
        os.unlink(b.exe)
        return (i, g, out)
    # the reference first: everything enabled, defaults
    all_.sort(key=lambda g: g != dict(ALLP, TS_SHAKE256_OPT=0))
    res = list(c.pool.map(one, enumerate(all_)))
    for i, g, out in [x for x in res if x]:
        if isinstance(out, BuildError):
            if not out.lib:
                raise out
            c.violation("build", f"{cfg_name(g)} does not build: {out}")
        else:
            for n, run in out:
                runs[n].append((cfg_name(g), run))
    jobs = []
    for n in runs:
        rr = runs[n]
        for i in range(0, len(rr), 25):            # the reference run starts each trace
            part = rr[i:i + 25]
            jobs.append(concat(c, f"{n}.{i}", ([rr[0]] if i else []) + part, dict(VALMODE="spec" if n in STD else "own")))
    c.check_runs(jobs)
    c.extra["settings_built"] = len([x for x in res if x and not isinstance(x[2], BuildError)])
    c.extra["settings_times_sets_verified"] = nsets[1]
    c.extra["settings_times_sets_signed"] = nsets[0]
    return c.finish()


def gen_line_(p, rnd):
    return f"gen {p.name} ok:{rnd.hex()} pub"


# ---------------------------------------------------------------------- C11
BLOCK = dict(sha256=64, sha512=128, shake256=136)


def c11(c):
    c.model("MCHash", note="MCHash: functions of Hash.tla = test vectors, overrides")
    c.proofs("IndHash", ["CInit256", "CInit512", "CInitShake"], ["Init"], ["IndInit"])
    for cfg in ("MCHashBuf", "MCHashBuf64", "MCHashBuf128", "MCHashBufSq"):
        c.model("MCHashBuf", cfg=cfg + ".cfg", note=cfg)
    if c.thorough:
        c.model("MCHash", cfg="MCHashAll.cfg", note="MCHash: every length")
        c.model("MCHashBuf", cfg="MCHashBufFull.cfg", note="MCHashBufFull", timeout=1500)
    r = rng("c11")
    jobs = []
    for opt in (0, 1, 2):
        b = None
        for parts in ((), ("-DNO_SAVE",), ("-DNO_SAVE", "-DNO_TRUNC")):
            try:
                b = c.compile(f"hash{opt}", dict(ALLP, TS_SHAKE256_OPT=opt), hashes=True, hflags=parts)
                break
            except BuildError as e:
                if e.lib:
                    raise
        if b is None:
            c.notes.append("the hash functions' own interface is not what the harness knows; they are exercised through signatures only")
            return c11_indirect(c)
        if parts:
            c.notes.append(f"built with {parts}: that part of the hash functions' interface is not what the harness knows")
        blocks = []
        for alg in (("sha256", "sha512", "shake256") if opt == 0 else ("shake256",)):
            blocks += [(cost, [without(l, alg, parts) for l in ls]) for cost, ls in hash_blocks(c, r, alg, opt)]
        lines = [[] for _ in range(16)]
        load = [0] * 16
        for cost, ls in sorted(blocks, key=lambda x: -x[0]):
            i = load.index(min(load))
            load[i] += cost
            lines[i] += ls
        jobs += [dict(name=f"hash{opt}.{i}", binary=b, scripts=[ls], env={}, module="TraceHash", timeout=600) for i, ls in enumerate(lines) if ls]
        # beyond 2^29 bytes (2^32 bits) and 2^32 bytes
        G = 1 << 32
        big = []
        for alg in (("sha256", "sha512", "shake256") if opt == 0 else ("shake256",)):
            if opt == 2 and not c.thorough:
                big.append((alg, [f"(00*{2 ** 28 + 9})"]))
                continue
            big.append((alg, [f"(00*{2 ** 29 + 77})"]))
            big.append((alg, ["616263", f"(00*{2 ** 29 - 3})", "6465"]))
            if opt == 0 or c.thorough:
                big.append((alg, [f"(a5*{G + BLOCK[alg] + 13})"]))
            if c.thorough:
                big.append((alg, ["0102", f"(00*{2 ** 31})", "03", f"(00*{2 ** 31})", "040506"]))
                big.append((alg, [f"(00*{2 ** 31 - 1})", f"(00*{2 ** 31 + 1})", "07"]))
        for i, (alg, parts) in enumerate(big):
            ls = [f"hinit 0 {alg}"] + [f"hupd 0 {x}" for x in parts]
            ls += ["hfin 0 0", "hsqz 0 64"] if alg == "shake256" else ["hfin 0 full"]
            jobs.insert(0, dict(name=f"long{opt}.{i}", binary=b, scripts=[ls], env={}, module="TraceHash", timeout=800))
    c.check_runs(jobs)
    return c.finish()


def without(l, alg, parts):
    """A command for a driver built without some of the hash functions' interface."""
    w = l.split()
    if parts and w[0] == "hsave":
        return "#"
    if parts and w[0] == "hrest":
        return f"hinit {w[1]} {alg}"
    if len(parts) > 1 and w[0] == "hfin" and alg != "shake256":
        return f"hfin {w[1]} full"
    return l


def hash_blocks(c, r, alg, opt):
    B = BLOCK[alg]
    out = []
    fin = ["hfin 0 0", "hsqz 0 32"] if alg == "shake256" else ["hfin 0 full"]
    step = {"sha256": 4, "sha512": 8}.get(alg)
    full = {"sha256": 32, "sha512": 64}.get(alg)

    def data(n):
        return rbytes(r, n).hex() if n else "-"
    ls = []
    for n in list(range(0, 3 * B + 3)) + [4 * B - 1, 4 * B, 4 * B + 1, 1000, 4095, 4096, 65535, 65536, 65537]:
        ls += [f"hinit 0 {alg}", f"hupd 0 {data(n)}"] + fin
    for n in (0, 1, B - 1, B, B + 1):                 # no update at all, empty updates, runs of equal bytes
        for byte in ("00", "ff", "80"):
            ls += [f"hinit 0 {alg}"] + ([f"hupd 0 ({byte}*{n})"] if n else []) + ["hupd 0 -"] + fin
    ls += [f"hinit 0 {alg}"] + fin + [f"hinit 0 {alg}", "hupd 0 (61*1000000)"] + fin
    out.append((len(ls), ls))
    # every pair of (bytes already buffered, bytes added)
    frac = {"sha256": 1.0, "sha512": .35, "shake256": .3 if opt == 0 else .12}[alg]
    if c.thorough:
        frac = 1.0
    ls = []
    for a in range(0, B + 1):
        for b in range(0, 2 * B + 2):
            edge = (a + b) % B in (0, 1, B - 1, B - 8, B - 9, B - 16, B - 17) or b in (0, 1, B - a, B, 2 * B - a)
            if edge or r.random() < frac:
                ls += [f"hinit 0 {alg}", f"hupd 0 {data(a)}", f"hupd 0 {data(b)}"] + fin
        if len(ls) > 3000:
            out.append((len(ls), ls))
            ls = []
    out.append((len(ls), ls))
    # many parts; several hashes at once
    ls = []
    for _ in range(60 if not c.thorough else 600):
        hs = r.sample(range(1, 30), 3)
        ls += [f"hinit {h} {alg}" for h in hs]
        for _ in range(r.randint(1, 25)):
            ls.append(f"hupd {r.choice(hs)} {data(r.choice([0, 1, 2, r.randint(0, 20), r.randint(0, B), B - 1, B, B + 1, r.randint(0, 4 * B)]))}")
        for h in hs:
            if alg == "shake256":
                ls += [f"hfin {h} 0"] + [f"hsqz {h} {r.choice([0, 1, 16, 24, 32, B - 1, B, B + 1, r.randint(0, 3 * B)])}" for _ in range(r.randint(1, 6))]
            else:
                ls += [f"hfin {h} {r.choice(['full'] + [str(x) for x in range(0, full + 1, step)])}"]
    out.append((len(ls), ls))
    ls = []
    for n in (1, 3, B - 1, B, B + 1, 2 * B):          # byte by byte
        ls += [f"hinit 0 {alg}"] + [f"hupd 0 {data(1)}" for _ in range(n)] + fin
    if alg == "shake256":
        pre = [f"hinit 0 {alg}", f"hupd 0 {data(40)}", "hfin 0 0"]
        for a in range(0, 2 * B + 2):                 # every pair of squeezes
            for b in {1, B - 1, B, B + 1, (2 * B - a) % B, r.randint(0, 2 * B), r.randint(0, 2 * B)} | (set(range(0, B + 2, 3)) if c.thorough else set()):
                ls += pre + [f"hsqz 0 {a}", f"hsqz 0 {b}", "hsqz 0 9"]
        for n in (1, 2, 7, 8, 16, 24, 32, 100, 135, 136, 137, 271, 272, 273, 1000):
            ls += pre + [f"hsqz 0 {n}"] * 12
        ls += pre + ["hsqz 0 1"] * (2 * B + 3) + ["hsqz 0 3000"]
        out.append((3 * len(ls), ls))
    else:
        for n in range(0, 2 * B + 2):
            for t in {r.randrange(0, full + 1, step), full} if not c.thorough else range(0, full + 1, step):
                ls += [f"hinit 0 {alg}", f"hupd 0 {data(n)}", f"hfin 0 {t}"]
        for t in range(0, full + 1, step):
            for n in (0, B - 17, B - 9, B - 8, B, 3 * B):
                ls += [f"hinit 0 {alg}", f"hupd 0 {data(n)}", f"hfin 0 {t}"]
        # the state after one block, saved and resumed
        for a in range(0, B + 1):
            ls += [f"hinit 1 {alg}", f"hupd 1 {data(a)}", f"hupd 1 {data(B - a)}", "hsave 1"]
            for n in sorted({0, 1, B - 1, B, r.randint(0, 3 * B), r.randint(0, 3 * B)}):
                ls += ["hrest 2 1", f"hupd 2 {data(n)}"] + ([f"hupd 2 {data(r.randint(0, B))}"] if n % 3 == 0 else []) + \
                      [f"hfin 2 {r.choice(['full', str(r.randrange(0, full + 1, step))])}"]
            if a % 16 == 0:
                ls += [f"hupd 1 {data(a + 3)}", "hfin 1 full", "hrest 1 1", "hfin 1 full"]
        for n in range(0, 2 * B + 2):
            ls += ["hrest 2 1", f"hupd 2 {data(n)}", "hfin 2 full"]
        out.append((len(ls), ls))
    return out


def c11_indirect(c):
    jobs = []
    r = rng("c11i")
    from checks import jobs_of, SPEC
    for opt in (0, 1, 2):
        b = c.compile(f"ind{opt}", dict(ALLP, TS_SHAKE256_OPT=opt))
        blocks = []
        for n in FSETS:
            p = std(n)
            sk = key(r, p)
            for x in list(range(0, 290, 7)) + [r.randrange(290) for _ in range(20)]:
                blocks.append(Block(p, [f"isign 0 {n} {sk.hex()} {hexs(rbytes(r, x))} null", f"sign 0 {p.n * 3}"], 1))
        jobs += jobs_of(f"indirect{opt}", b, blocks, SPEC)
    c.check_runs(jobs)
    return c.finish()


# ---------------------------------------------------------------------- C12
def c12(c):
    from checks import gen_keys, sign_verify, jobs_of, gen_line, subjects, tour_blocks, OWNSPEC
    r = rng("c12")
    gb = c.compile("guard-O2")
    g0 = c.compile("guard-O0", flags=("-O0",))
    asan = c.compile("asan", cc="clang", flags=("-O1", "-g", "-fsanitize=address,bounds", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"),
                     hflags=("-DSANITIZED",))
    msan = c.compile("msan", cc="clang", flags=("-O1", "-g", "-fsanitize=memory", "-fno-omit-frame-pointer"), hflags=("-DSANITIZED",)) \
        if c.thorough else None
    three = [shape(f, n, 2, 2, 6, 3) for f, n in FAMN]
    tall = [shape(f, n, 35, 14, 9, 1 if False else 3) for f, n in FAMN]
    edge = [shape(f, n, 2, 14, 18, 2) for f, n in FAMN] + [shape(f, n, 35, 2, 4, 2) for f, n in FAMN]
    keyed = gen_keys(c, gb, [std(n) for n in STD] + TINY + three + edge, r)
    blocks = []
    for p, sk, pk in keyed:
        tiny, real, n, L = p in TINY, p.base is None, p.n, p.L
        skb = bytes.fromhex(sk)
        ls = [gen_line(p, "ok:" + rbytes(r, 3 * n).hex(), x) for x in ((True, False) if p.name not in SSETS else (True,))]
        ls += [gen_line(p, "fail:" + rbytes(r, 3 * n).hex(), True), gen_line(p, "null", True)]
        # messages of every length (the end, and then the start, of the message at the guard page)
        lens = list(range(0, 300)) + [511, 512, 513, 4095, 4096, 4097, 70001] if tiny else [0, 1, 63, 64, 65, 111, 112, 127, 128, 136, 137, 4096] if p.name in FSETS or not real else [0, 33]
        for x in lens:
            m = hexs(rbytes(r, x))
            for rep in range(2 if x < 150 else 1):
                rg = r.choice(["null", "ok:" + rbytes(r, n).hex(), "fail:" + rbytes(r, n).hex()])
                ls += [f"isign 0 {p.name} {sk} {m} {rg}", f"sign 0 {n}" if not tiny or x % 16 else f"signto 0 {r.choice([L, n, 5])}"]
                ls += [f"iver 1 {p.name} {pk} {m}", f"feed 1 {rbytes(r, n).hex()}", "ver 1"]
        # chunk sizes when signing and verifying
        full = [f"isign 0 {p.name} {sk} 6775617264 null", f"signto 0 {L if p.name in SSETS else n + 1}", "take V 0", "sign 0 0", "sign 0 1", f"sign 0 {2 * n}"]
        iv = f"iver 1 {p.name} {pk} 6775617264"
        ls += full + [iv, f"feedto 1 V 0 {L} {L}", "ver 1", "feed 1 -", "feed 1 00", "ver 1", f"feedb 1 V 0 {L}", "ver 1"]
        sizes = list(range(1, 4 * n + 2)) + [255, 256, 257, 1000] if tiny else [1, n - 1, n + 1, 1000] if not real else [n - 1, 1009] if p.name in FSETS else []
        for k in sizes:
            if p.name not in SSETS:
                ls += [full[0], f"signto 0 {k}", f"sign 0 {k}"]
            ls += [iv, f"feedto 1 V 0 {L} {k}", "ver 1", "feed 1 00", "ver 1"]
        for _ in range(3 if p.name not in SSETS else 1):
            t, u, o = [full[0]], [iv], 0
            for k in splits(r, L, style_mix(n)):
                t += [f"sign 0 {k}"]
                u += [f"feedb 1 V {o} {k}"] + (["ver 1", "sign 1 5", "feed 0 00"] if r.random() < .05 else [])
                o += k
            ls += (t + ["sign 0 7"] if p.name not in SSETS else []) + u + ["ver 1"]
        # forged signatures: whatever bytes are fed
        for _ in range(20 if tiny else 3):
            ls += [f"buf J {rbytes(r, L + n).hex()}", iv, f"feedto 1 J 0 {L + n} {r.choice([L + n, L, n, 77])}", "ver 1", "feed 1 00"]
        ls += [f"buf J {'ff' * L}", iv, f"feedb 1 J 0 {L}", "ver 1", f"buf J {'00' * L}", iv, f"feedb 1 J 0 {L}", "ver 1"]
        ls += ["zero 7", "sign 7 10", "feed 7 0011", "ver 7"]
        # places at the extremes
        ex = scen.extreme_messages(p, skb, r, 1500)
        for g in sorted(ex)[:: 1 if not real else 3 if p.name in FSETS else 9]:
            ls += sign_verify(p, sk, pk, ex[g], c0=3)
        blocks.append(Block(p, ls, cost_sign(p) * (len(ls) / 10 if not real else 12 if p.name in FSETS else 4)))
    jobs = jobs_of("guard", gb, blocks, {}, bins=20, drive_env=dict(VF_GUARD="1"))
    jobs += jobs_of("guard-O0", g0, [x for x in blocks if x.ps[0] in TINY or x.ps[0].name in FSETS], {}, bins=8, drive_env=dict(VF_GUARD="1"))
    ae = dict(VF_GUARD="1", ASAN_OPTIONS="detect_leaks=0:exitcode=66:handle_segv=0:allow_user_segv_handler=1", UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=66")
    jobs += jobs_of("asan", asan, [x for x in blocks if c.thorough or x.ps[0].name not in SSETS], {}, bins=14, drive_env=ae, timeout=600)
    # every kind of call in every state
    g = tour.Graph(c)
    small = [x for x in keyed if x[0] in TINY or x[0].name in FSETS]
    walks = tour_blocks(g, subjects(small, r, gen_keys(c, gb, [x[0] for x in small], r)), tour.anything, tour.anything, r, parts=2)
    jobs += jobs_of("walk", gb, walks, OWNSPEC, bins=8, drive_env=dict(VF_GUARD="1"))
    jobs += jobs_of("walk-asan", asan, [x for x in walks if x.ps[0] in TINY] or walks[:4], OWNSPEC, bins=4, drive_env=ae, timeout=600)
    jobs += jobs_of("canary", gb, [x for x in blocks if x.ps[0].base], {}, bins=8)
    if msan:
        jobs += jobs_of("msan", msan, [x for x in blocks if x.ps[0].name not in SSETS], {}, bins=8, timeout=800)
    # the smallest settings: the context is as small as it gets there
    for i, n in enumerate(STD if c.thorough else [x for x in STD if x in FSETS] + ["sha2_128s"]):
        g = min_config(n)
        b = c.compile_seq(f"min{i}", g, cc="clang", flags=("-O1", "-g", "-fsanitize=address,bounds", "-fno-sanitize-recover=all"), hflags=("-DSANITIZED",))
        p = std(n)
        sk, pk = [(s, k) for q, s, k in keyed if q.name == n][0]
        ls = [f"isign 0 {n} {sk} 00 null", f"sign 0 {p.L + 1}", "take V 0", gen_line(p, "ok:" + rbytes(r, 3 * p.n).hex()),
              f"iver 0 {n} {pk} 00", f"feedto 0 V 0 {p.L} 100", "ver 0"]
        jobs += jobs_of(f"min.{n}", b, [Block(p, ls)], {}, bins=1, drive_env=ae, timeout=600)
    c.check_runs(jobs)
    return c.finish()


def min_config(n):
    """What ramspace.py uses to measure a parameter set."""
    p = std(n)
    return dict(TS_SUPPORT_L5=int(p.n == 32), TS_SUPPORT_L3=int(p.n >= 24), TS_SUPPORT_SHAKE=int(p.fam == "shake"), TS_SUPPORT_SHA2=int(p.fam == "sha2"),
                TS_SUPPORT_S=int(n in SSETS), TS_SHA2_OPTIMIZATION=0, TS_SHAKE256_OPT=2)


# ---------------------------------------------------------------------- C13
def c13(c):
    import threading
    jobs, ends, lock = [], {}, threading.Lock()

    def one(a):
        n, o, tag, g = a
        d = f"{c.work}/ram-{n}{o}{tag}"
        os.makedirs(d)
        srcs = [f"{vf.REPO}/{s}" for s in vf.lib_sources()]
        r = vf.sh(["gcc", "-w", o, "-fomit-frame-pointer", "-fPIC", "-shared", "-Wl,-z,now", *vf.defs(g), "-I", vf.REPO, *srcs, "-o", f"{d}/lib.so"])
        if r.returncode:
            raise BuildError(f"{cfg_name(g)}: {r.stdout[-1500:]}", lib=True)
        r = vf.sh(["gcc", "-w", "-O1", *vf.defs(g), "-I", vf.REPO, f"-DRAM_SET=ts_ps_{n}_simple", f"-DMINIMAL={int(tag == 'min')}",
                   f"{vf.VERIF}/harness/ram.c", "-Wl,-z,now", "-o", f"{d}/ram", f"{d}/lib.so", "-lpthread", "-ldl"])
        if r.returncode:
            raise BuildError(f"harness: {r.stdout[-1500:]}", lib=False)
        t = f"{d}/run.0.trace"
        lim = 12 if c.thorough else (2 if n in SSETS else 8)
        p = std(n)
        with lock:
            if n not in ends:
                r = rng("c13", n)
                k = key(r, p)
                ex = scen.extreme_messages(p, k, r, 1500)
                goals = sorted(ex)
                r.shuffle(goals)
                ends[n] = "\n".join([k.hex()] + [ex[g].hex() for g in goals[:2 if n in SSETS and not c.thorough else 9]]) + "\n"
        with open(f"{d}/ends", "w") as f:
            f.write(ends[n])
        try:
            x = vf.subprocess.run([f"{d}/ram", t, str(lim), f"{d}/ends"], stdout=vf.subprocess.PIPE, stderr=vf.subprocess.PIPE, timeout=800)
            rc, err = x.returncode, x.stderr.decode(errors="replace")
        except vf.subprocess.TimeoutExpired:
            rc, err = "timeout", ""
        vf.fix_tail(t)
        if rc != 0 and '"fault"' not in vf.tail(t):
            open(t, "a").write('{"e":"fault","signal":%s}\n' % (-rc if isinstance(rc, int) else 14))
        else:
            open(t, "a").write(static_event(d, srcs, g, o) + '{"e":"end"}\n')
        run = vf.Run(vf.Binary(f"{d}/ram", False, f"ram {n} {o} {tag}"), [[f"ram {n} {o} {tag} {lim}", "# key and messages:"] + ends[n].split()], [t], rc, err, {}, 0)
        return dict(name=f"ram.{n}{o}.{tag}", run=run, binary=run.binary, scripts=[], env={}, module="TraceRam")
    opts = ["-Os", "-O2"] if not c.thorough else ["-Os", "-O1", "-O2", "-O3"]
    todo = [(n, o, "min", min_config(n)) for o in opts for n in STD]
    for n in (STD if c.thorough else FSETS):               # other settings: heap and static storage too
        for tag, x in (("opt0", dict(ALLP)), ("opt1", dict(ALLP, TS_SHAKE256_OPT=1)), ("opt2", dict(ALLP, TS_SHA2_OPTIMIZATION=0, TS_SHAKE256_OPT=2))):
            if std(n).fam == "shake" or tag != "opt1":
                todo.append((n, "-O2", tag, x))
    todo.sort(key=lambda a: a[0] not in SSETS)
    jobs = list(c.pool.map(one, todo))
    c.extra["measured"] = measured(jobs)
    c.check_runs(jobs)
    return c.finish()


def static_event(d, srcs, g, o):
    """Sizes of the writable sections of the library's objects."""
    tot = dict(data=0, bss=0, tls=0)
    for s in srcs:
        f = f"{d}/{os.path.basename(s)}.o"
        r = vf.sh(["gcc", "-w", o, "-fno-pic", "-fno-common", *vf.defs(g), "-I", vf.REPO, "-c", s, "-o", f])
        if r.returncode:
            raise BuildError(f"{cfg_name(g)}: {r.stdout[-1500:]}", lib=True)
        for l in vf.sh(["size", "-A", f]).stdout.split("\n"):
            w = l.split()
            if len(w) == 3 and w[1].isdigit():
                for k, pre in (("data", ".data"), ("bss", ".bss"), ("tls", ".tdata"), ("tls", ".tbss")):
                    if w[0].startswith(pre) and not w[0].startswith(".data.rel.ro"):
                        tot[k] += int(w[1])
    return '{"e":"static","data":%(data)d,"bss":%(bss)d,"tls":%(tls)d}\n' % tot


def measured(jobs):
    out = {}
    for j in jobs:
        m = {}
        for e in vf.read_events(j["run"].traces[0], 0, 10 ** 6):
            if e.get("e") == "ram" and e["op"] != "nothing":
                k = {"initsign": "sign", "signhead": "sign", "wrongsign": "sign", "initverify": "verify", "verifyhead": "verify", "wrongverify": "verify"}.get(e["op"], e["op"])
                m[k] = max(m.get(k, 0), e["stack"] + (0 if k == "keygen" else e["ctx"]))
        out[j["name"]] = m
    return out


# ---------------------------------------------------------------------- C14
def c14(c):
    from checks import jobs_of
    c.model("MCAdr", note="MCAdr: no hash sees a byte of an earlier address")
    c.model("MCScheme", cfg="MCScheme.cfg" if vf.SEED % 2 else "MCScheme2.cfg", note="MCScheme")
    if c.thorough:
        c.model("MCScheme", cfg="MCSchemeBig.cfg", note="MCSchemeBig", timeout=1200)
    b = c.compile("O2")
    r = rng("c14")
    jobs = []
    blocks = []
    def one(p, sk, ms):
        """One key's signatures, several under way at once, in pieces, on contexts with a past (operations with the same key
        left half way); the last few again in the plain way."""
        lanes = [[] for _ in range(3 if p.L > 3000 else 5)]
        for m in ms:
            i = r.randrange(len(lanes))
            lanes[i] += sign_some_way(p, sk, m, r, rbytes(r, p.n) if r.random() < .15 else None, c=i)
        return interleave(lanes, r) + sum((sign_once(p, sk, m) for m in r.sample(ms, min(2, len(ms)))), [])
    for p in EXH + TINY:
        for kk in range(2):
            sk = key(r, p)
            ms, total = every_position(p, sk, r, 110 if not c.thorough else None)
            blocks.append(Block(p, one(p, sk, ms[:110 if not c.thorough else 150]), len(ms) * cost_sign(p)))
    deep = [(3, 3, 6, 3), (2, 4, 12, 4), (4, 2, 16, 8), (1, 6, 18, 2), (35, 1, 33, 33), (3, 5, 64, 16), (2, 9, 68, 17), (5, 14, 4, 2), (2, 2, 66, 22)]
    for f, n in FAMN:
        for x in deep:
            p = shape(f, n, *x)
            sk = key(r, p)
            cnt = 30 if p.nodes < 400 else 8
            if x[1] == 14:
                cnt = 10
            ms = collide(p, sk, r, cnt)
            blocks.append(Block(p, one(p, sk, ms), len(ms) * (cost_sign(p) + 20 * p.nodes)))
    for nme in STD:
        p = std(nme)
        if nme in SSETS and not c.thorough and p.n != 16 + 8 * r.randrange(3):
            continue
        sk = key(r, p)
        cnt = (6 if nme in FSETS else 3) * (3 if c.thorough else 1)
        ms = collide(p, sk, r, cnt)
        blocks.append(Block(p, one(p, sk, ms), len(ms) * (cost_sign(p) + 20 * p.nodes)))
    jobs = [dict(name=f"reveal.{i}", binary=b, scripts=[s], env={}, module="TraceOneTime", timeout=400)
            for i, s in enumerate(pack(have(b, blocks), 60))]
    c.check_runs(jobs)
    return c.finish()


def collide(p, sk, r, count):
    """Messages that meet again high in the hypertree, or whose addresses are alike in part."""
    hb = p.h - p.hp
    pool = []
    for i in range(3000 if p.L > 3000 else 800):
        m = b"c%d.%d" % (r.getrandbits(32), i)
        f, t, l = p.position(sk, m)
        pool.append((f, t, l, m))
    out, seen = [], set()

    def take(x):
        if x[3] not in seen and len(out) < count:
            seen.add(x[3])
            out.append(x[3])
    groups = [
        lambda x: (x[1], x[2]),                                   # the very same bottom leaf
        lambda x: (x[1] & 0xffffffff, x[2]) if hb > 32 else (x[1] % 4, x[2]),
        lambda x: (x[1] & 0xff, x[2]),
        lambda x: x[1] >> max(0, hb - 2 * p.hp),                  # the same place in the upper layers
        lambda x: x[1] >> max(0, hb - p.hp),
        lambda x: (x[2], x[0][0]),
        lambda x: x[0][-1],
        lambda x: (x[1], x[2] & 0xff) if p.hp > 8 else (x[1], x[2] >> 1),
        lambda x: (x[1], x[2], x[0][0] & 0xff) if p.t > 8 else (x[1], x[2], x[0][-1]),
    ]
    if p.k << p.t > 1 << 16:                   # leaves of two FORS trees whose numbers are alike in 16 bits
        first = {x[1:3] + (x[0][0],): x for x in pool}
        for x in pool:
            y = first.get(x[1:3] + (x[0][(1 << 16) >> p.t],))
            if y and len(out) < 4:
                take(x)
                take(y)
    gi = 0
    while len(out) < count and gi < 6 * len(groups):
        g = groups[gi % len(groups)]
        gi += 1
        d = {}
        for x in pool:
            if x[3] not in seen:
                d.setdefault(g(x), []).append(x)
        best = [v for v in d.values() if len(v) > 1]
        if best:
            for x in r.choice(best)[:2]:
                take(x)
    for x in sorted(pool, key=lambda x: x[1])[:1] + sorted(pool, key=lambda x: -x[1])[:1] + pool:
        take(x)
    return out
