"""Behaviours generated by the specification: TLC explores GenApi.tla and prints its edges; walks that cover the edges are
given real positions and sizes and become driver scripts."""
import collections, json, re
from scen import rbytes, hexs
import vf

SUB = 3


class Graph:
    def __init__(self, c, blocks=4):
        cfg = open(f"{vf.VERIF}/spec/GenApi.cfg").read().replace("Blocks = 4", f"Blocks = {blocks}")
        r = c.tlc("GenApi", cfg="GenApi.cfg", files={"GenApi.cfg": cfg})
        if not r.ok:
            raise vf.ToolError("GenApi: " + r.out[-2000:])
        c.states += r.distinct
        c.transitions += r.generated
        self.blocks, self.end = blocks, SUB * blocks
        self.edges = sorted({(tuple(e["from"]), tuple(e["call"]), tuple(e["to"])) for e in
                             (json.loads(json.loads(l)) for l in r.out.split("\n") if l.startswith('"{\\"from'))})
        c.models["GenApi"] = dict(states=r.distinct, transitions=len(self.edges))
        c.drop(r)
        self.start = ("zero", "", 0, "")

    def walks(self, wanted, allowed, r, parts=1):
        """Walks from the zero context that together take every wanted edge, using allowed edges only."""
        edges = [e for e in self.edges if allowed(e)]
        out = collections.defaultdict(list)
        for e in edges:
            out[e[0]].append(e)
        todo_all = [e for e in edges if wanted(e)]
        r.shuffle(todo_all)
        res = []
        for part in range(parts):
            todo = set(todo_all[part::parts])
            left = collections.Counter(e[0] for e in todo)
            at, walk = self.start, []

            def take(e):
                walk.append(e)
                if e in todo:
                    todo.discard(e)
                    left[e[0]] -= 1
                return e[2]
            while todo:
                here = [e for e in out[at] if e in todo]
                if here:
                    at = take(r.choice(here))
                    continue
                seen, q, goal = {at: None}, collections.deque([at]), None
                while q:
                    s = q.popleft()
                    if left[s] > 0:
                        goal = s
                        break
                    nx = list(out[s])
                    r.shuffle(nx)
                    for e in nx:
                        if e[2] not in seen:
                            seen[e[2]] = e
                            q.append(e[2])
                if goal is None:
                    break                       # what is left cannot be reached with the allowed edges
                path = []
                while goal != at:
                    path.append(seen[goal])
                    goal = seen[goal][0]
                for e in reversed(path):
                    at = take(e)
            if todo:
                raise vf.ToolError(f"tour: {len(todo)} edges out of reach")
            res.append(walk)
        return res


class Subject:
    """What a walk is carried out on: buffers G (its signature) and J (junk) exist already."""

    def __init__(self, p, sk, pk, msg, good, junk, otherkey, opt=None):
        self.p, self.sk, self.pk, self.msg, self.good, self.junk, self.otherkey = p, sk, pk, msg, good, junk, otherkey
        self.opt = "null" if opt is None else "ok:" + opt
        self.others = []                # Subjects of the same set, taken in between: another key, another message


HUGE = (2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1)


def script(walk, s, c0, blocks, r, heavy=False):
    """The walk as driver commands on context c0."""
    p, n, L, end = s.p, s.p.n, s.p.L, SUB * blocks
    out = [f"zero {c0}"]
    every = [s] + s.others

    def remap():
        # real nodes for the abstract ones: the first, the last, and others in between in order
        mid = sorted(r.sample(range(1, p.nodes - 1), blocks - 2))
        real = [0] + mid + [p.nodes - 1]
        inner = r.randrange(1, n - 1)
        return [b * n + o for b in real for o in (0, inner, n - 1)] + [L]
    pos = remap()
    small = {0: 0, 1: 1, 2: n - 1, 3: n, 4: n + 1, end: L}
    bad = None
    for (ph, st, at, vst), (call, arg, k), to in walk:
        if call in ("isign", "iver"):
            s = r.choice(every)
            if r.random() < .2:
                out.append(f"keep {r.randrange(2)}")
        if call == "isign":
            pos = remap()
            out.append(f"isign {c0} {p.name} {s.sk} {s.msg} {s.opt}")
        elif call == "iver":
            pos = remap()
            bad = {"bad0": r.randrange(n), "badm": r.randrange(pos[3], pos[-2]), "badz": r.randrange(L - n, L)}.get(arg)
            out.append(f"iver {c0} {p.name} {s.otherkey if arg == 'otherkey' else s.pk} {s.msg}")
        elif call == "zero":
            out.append(f"zero {c0}")
        elif call == "fill":
            out.append(f"fill {c0} " + r.choice(["0", "255", "1", "85", f"r{r.randrange(10 ** 6)}", f"r{r.randrange(10 ** 6)}"]))
        elif call == "ver":
            out.append(f"ver {c0}")
        elif call == "sign":
            if ph == "sign":
                if at + k > end:
                    k = L - pos[at] + (1 if at + k == end + 1 else r.choice([n, n + 1, 5 * n, 1000]))
                    if r.random() < .3:
                        k = r.choice(HUGE)
                else:
                    k = pos[at + k] - pos[at]
            else:
                k = small[k]
            out.append(f"sign {c0} {k}")
        elif call == "feed":
            if ph == "ver" and vst == "open":
                o = pos[at]
                if at + k > end:
                    x = small[at + k - end]
                    if o >= L:
                        out.append(f"feedb {c0} {s.junk} 0 {x}")
                        continue
                    size, buf = L - o + x, s.good + "x"
                else:
                    size, buf = pos[at + k] - o, s.good
                if size == 0:
                    out.append(f"feed {c0} -")
                elif bad is not None and o <= bad < o + size:
                    out.append(f"feedb {c0} {buf} {o} {size} {bad - o} {1 << r.randrange(8)}")
                else:
                    out.append(f"feedb {c0} {buf} {o} {size}")
            else:
                k = small[k]
                out.append(f"feed {c0} -" if k == 0 else f"feedb {c0} {r.choice([s.good, s.junk])} 0 {k}")
    return out


def prepare(s, r, c0=39):
    """Commands that make the subject's buffers (its signature is made by the library on a context of its own)."""
    p = s.p
    j = rbytes(r, p.L + 2 * p.n).hex()
    return sum((prepare(q, r, c0) for q in s.others), []) + [f"fresh {c0}", f"isign {c0} {p.name} {s.sk} {s.msg} {s.opt}", f"sign {c0} {p.L}", f"take {s.good} {c0}", f"buf {s.junk} {j}",
            f"cat {s.good}x {s.good} {s.junk}"]


# the parts of the graph a check has to cover
def wrong_phase(e):
    (ph, st, at, vst), (call, arg, k), to = e
    return call in ("sign", "feed", "ver") and not (ph == "sign" and call == "sign" or ph == "ver" and call in ("feed", "ver"))


def signing(e):
    return e[0][0] in ("sign", "zero") and e[1][0] in ("isign", "sign") and not wrong_phase(e)


def verifying(e):
    return e[0][0] in ("ver", "zero") and e[1][0] in ("iver", "feed", "ver") and not wrong_phase(e)


def or_clear(part):
    return lambda e: part(e) or e[1][0] == "zero" and e[0][0] != "raw"


def beginning(e):
    return e[1][0] in ("isign", "iver")


def anything(e):
    return True
