"""Random timed I/O automata, written twice: as data for the specification and as component
files for the code.  A component is a dict
  name, clocks [names], locs [{id, inv: dnf, type}], edges [{id, s, t, a, io, g: dnf, u: [[clock, val]]}]
with clocks numbered from 1 within the component; a dnf is a list (or) of lists (and) of atoms
[i, j, strict, c] meaning x_i - x_j < c or <= c (x_0 = 0).  `None` is the absent guard."""
import copy, json, random

TRUE = [[]]


def le(i, c): return [i, 0, False, c]
def lt(i, c): return [i, 0, True, c]
def ge(i, c): return [0, i, False, -c]
def gt(i, c): return [0, i, True, -c]


def sum_text(clock, op, c, rng):
    """A comparison of a clock with a number that takes some calculation."""
    k = rng.randint(1, 3)
    w = rng.randint(0, 4)
    if w == 0 and k <= c:
        return "%s%s%d+%d" % (clock, op, k, c - k)
    if w == 1:
        return "%s%s%d-%d" % (clock, op, c + k, k)
    if w == 2:
        return "%s+%d%s%d" % (clock, k, op, c + k)
    if w == 3 and k <= c:
        return "%s-%d%s%d" % (clock, k, op, c - k)
    return "%d+%d%s%s" % (c, k, {"<": ">", "<=": ">=", ">": "<", ">=": "<="}[op], clock + "+%d" % k)


def atom_text(a, names, rng=None, sums=0):
    i, j, strict, c = a
    r = rng.random() if rng else 0
    if sums and rng and (i == 0 or j == 0) and rng.random() < sums:
        if j == 0:
            return sum_text(names[i - 1], "<" if strict else "<=", c, rng)
        return sum_text(names[j - 1], ">" if strict else ">=", -c, rng)
    if j == 0:
        if r < 0.75:
            return "%s%s%d" % (names[i - 1], "<" if strict else "<=", c)
        return "%d%s%s" % (c, ">" if strict else ">=", names[i - 1])
    if i == 0:
        if r < 0.75:
            return "%s%s%d" % (names[j - 1], ">" if strict else ">=", -c)
        return "%d%s%s" % (-c, "<" if strict else "<=", names[j - 1])
    # Numbers in texts have no sign.
    x, y, lo, hi = names[i - 1], names[j - 1], "<" if strict else "<=", ">" if strict else ">="
    if c < 0:
        return "%s-%s%s%d" % (y, x, hi, -c) if r < .5 else "%d%s%s-%s" % (-c, lo, y, x)
    return "%s-%s%s%d" % (x, y, lo, c) if r < .5 else "%s%s%s+%d" % (x, lo, y, c) if r < .8 else "%d%s%s-%s" % (c, hi, x, y)


def dnf_text(d, names, rng=None, sums=0):
    if d is None or d == TRUE:
        return ""
    if not d:
        return "false"
    parts = []
    for conj in d:
        if not conj:
            parts.append("true")
            continue
        # x<=c && x>=c now and then as x==c
        parts.append(" && ".join(atom_text(a, names, rng, sums) for a in conj))
    if len(parts) == 1:
        return parts[0]
    return " || ".join("(%s)" % p for p in parts)


def comp_json(c, rng=None):
    names = c["clocks"]
    sums = rng.choice([0, 0, .2, 1]) if rng else 0
    return {
        "name": c["name"],
        "declarations": ("clock %s;" % ", ".join(names)) if names else "",
        "locations": [{"id": l["id"], "nickname": "", "invariant": dnf_text(l["inv"], names, rng, sums),
                       "type": l["type"], "urgency": "NORMAL"} for l in c["locs"]],
        "edges": [{"id": e["id"], "group": "", "sourceLocation": c["locs"][e["s"]]["id"],
                   "targetLocation": c["locs"][e["t"]]["id"],
                   "status": "INPUT" if e["io"] == "I" else "OUTPUT", "select": "",
                   "guard": dnf_text(e["g"], names, rng, sums),
                   "update": ", ".join("%s=%d" % (names[k - 1], n) for k, n in e["u"]),
                   "sync": e["a"], "isLocked": False, "nails": []} for e in c["edges"]],
        "description": "", "includeInPeriodicCheck": False, "color": "0",
        "x": 1.0, "y": 1.0, "width": 1.0, "height": 1.0}


def actions_of(c, io):
    out = []
    for e in c["edges"]:
        if e["io"] == io and e["a"] not in out and e["a"] != "*":
            out.append(e["a"])
    return out


def shift(d, off):
    return [[[i + off if i else 0, j + off if j else 0, s, n] for i, j, s, n in conj] for conj in d]


def consts(d):
    for conj in d:
        for i, j, s, n in conj:
            yield i, j, abs(n)


# ------------------------------------------------------------------ expressions
def leaf(name): return ("c", name)
def par(a, b): return ("||", a, b)
def conj(a, b): return ("&&", a, b)
def quo(a, b): return ("//", a, b)


def text(t):
    if t[0] == "c":
        return t[1]
    return "(%s %s %s)" % (text(t[1]), {"||": "||", "&&": "&&", "//": "//"}[t[0]], text(t[2]))


def qtext(t):
    """Text for the top of a query: no outer parentheses needed."""
    s = text(t)
    return s[1:-1] if t[0] != "c" else s


class Case:
    """Instances of components for one or more expressions that share one set of clocks."""

    def __init__(self, id, comps, trees, separate=False):
        self.by = {c["name"]: c for c in comps}
        self.inst, self.n, self.max = [], 0, []
        self.qclock = None
        self.trees = trees
        self.names = []
        self.sys = []
        for t in trees:
            if separate:
                self.qclock = None
            self.sys.append(self.walk(t))
        self.id = id

    def newclock(self, name):
        self.n += 1
        self.max.append(0)
        self.names.append(name)
        return self.n

    def walk(self, t):
        if t[0] == "c":
            c = self.by[t[1]]
            off = self.n
            for k in c["clocks"]:
                self.newclock(k)
            inst = {
                "inputs": actions_of(c, "I"), "outputs": actions_of(c, "O"),
                "init": 1 + [l["type"] for l in c["locs"]].index("INITIAL"),
                "names": [l["id"] for l in c["locs"]],
                "kind": [{"UNIVERSAL": "u", "INCONSISTENT": "i"}.get(l["type"], "n") for l in c["locs"]],
                "inv": [shift(l["inv"] or TRUE, off) for l in c["locs"]],
                "edges": [{"id": e["id"], "s": e["s"] + 1, "t": e["t"] + 1, "a": e["a"], "io": e["io"],
                           "g": shift(e["g"] or TRUE if e["g"] != [] else [], off),
                           "u": [[k + off, n] for k, n in e["u"]]} for e in c["edges"] if e["a"] != "*"]}
            for d in inst["inv"] + [e["g"] for e in inst["edges"]]:
                for i, j, n in consts(d):
                    for x in (i, j):
                        if x:
                            self.max[x - 1] = max(self.max[x - 1], n)
            for e in inst["edges"]:
                for k, n in e["u"]:
                    self.max[k - 1] = max(self.max[k - 1], n)
            self.inst.append(inst)
            return {"op": "c", "k": len(self.inst)}
        l, r = self.walk(t[1]), self.walk(t[2])
        d = {"op": t[0], "l": l, "r": r}
        if t[0] == "//":
            if self.qclock is None:
                self.qclock = self.newclock("quotient_xnew")
            d["q"] = self.qclock
            k = 0
            used = self.inputs(l) | self.outputs(l) | self.inputs(r) | self.outputs(r)
            while "quotient_new_input%d" % k in used:
                k += 1
            d["new"] = "quotient_new_input%d" % k
        return d

    def outputs(self, d):
        if d["op"] == "c":
            return set(self.inst[d["k"] - 1]["outputs"])
        if d["op"] == "||":
            return self.outputs(d["l"]) | self.outputs(d["r"])
        if d["op"] == "&&":
            return self.outputs(d["l"]) & self.outputs(d["r"])
        return (self.outputs(d["l"]) - self.outputs(d["r"])) | (self.inputs(d["r"]) - self.inputs(d["l"]))

    def inputs(self, d):
        if d["op"] == "c":
            return set(self.inst[d["k"] - 1]["inputs"])
        if d["op"] == "||":
            return (self.inputs(d["l"]) - self.outputs(d["r"])) | (self.inputs(d["r"]) - self.outputs(d["l"]))
        if d["op"] == "&&":
            return self.inputs(d["l"]) & self.inputs(d["r"])
        return self.inputs(d["l"]) | self.outputs(d["r"]) | {d["new"]}

    def wf(self, d):
        """Whether the operators' conditions on the action sets hold (the code refuses others)."""
        if d["op"] == "c":
            return not (self.inputs(d) & self.outputs(d))
        l, r = d["l"], d["r"]
        if not (self.wf(l) and self.wf(r)):
            return False
        if d["op"] == "||":
            return not (self.outputs(l) & self.outputs(r))
        if d["op"] == "&&":
            return not (self.inputs(l) & self.outputs(r)) and not (self.outputs(l) & self.inputs(r))
        return not (self.outputs(r) & self.inputs(l))

    def spec(self, **extra):
        return {"id": self.id, "n": self.n, "max": self.max, "comps": self.inst, "sys": self.sys, **extra}


# ------------------------------------------------------------------ generation
class Gen:
    def __init__(self, seed, maxc=3):
        self.r = random.Random(seed)
        self.maxc = maxc
        # How often a guard compares two clocks.  Not for what is judged by regions.
        self.diag = 0
        # How often a clock that is set has been set before on the same edge.
        self.twice = .05

    def atom(self, k):
        r = self.r
        c = r.randint(0, self.maxc)
        f = r.choice([le, lt, ge, gt])
        if f is lt and c == 0:
            c = r.randint(1, self.maxc)
        return f(k, c)

    def guard(self, nclk, p_true=0.35, p_or=0.12):
        r = self.r
        if not nclk or r.random() < p_true:
            return TRUE
        def conj1():
            return [self.difference(nclk) if self.diag and nclk > 1 and r.random() < self.diag else
                    self.atom(r.randint(1, nclk)) for _ in range(r.choice([1, 1, 2]))]
        g = [conj1()]
        if r.random() < p_or:
            g.append(conj1())
        return g

    def difference(self, nclk):
        i, j = self.r.sample(range(1, nclk + 1), 2)
        return [i, j, self.r.random() < .5, self.r.randint(-self.maxc, self.maxc)]

    def split(self, nclk):
        """Two guards that never hold together."""
        k = self.r.randint(1, nclk)
        c = self.r.randint(0, self.maxc)
        if self.r.random() < 0.5:
            return [[le(k, c)]], [[gt(k, c)]]
        if c == 0:
            c = 1
        return [[lt(k, c)]], [[ge(k, c)]]

    def resets(self, nclk, p=0.45, vals=True):
        u = []
        for k in range(1, nclk + 1):
            if self.r.random() < p:
                n = 0 if not vals or self.r.random() < 0.8 else self.r.randint(0, self.maxc)
                if self.r.random() < self.twice:
                    u.insert(self.r.randint(0, len(u)), [k, self.r.randint(0, self.maxc)])
                u.append([k, n])
        return u

    def comp(self, name, ins, outs, nclk=1, nloc=None, clocknames=None, p_edge=0.6, p_inv=0.4,
             det=True, consistent=True, p_init=True, p_split=0.3, vals=True, p_uni=0.05, p_inc=0.0):
        """A component; with `consistent`, every location with an invariant has an output that can
        always be taken before the invariant runs out."""
        r = self.r
        nloc = nloc or r.randint(1, 3)
        clocks = clocknames or ["x", "y", "z"][:nclk]
        locs = []
        for i in range(nloc):
            inv = TRUE
            if nclk and outs and r.random() < p_inv:
                inv = [[le(r.randint(1, nclk), r.randint(1, self.maxc))]]
                if r.random() < 0.15:
                    inv[0].append((lt if r.random() < .5 else le)(r.randint(1, nclk), r.randint(1, self.maxc)))
            locs.append({"id": "L%d" % i, "inv": inv, "type": "NORMAL"})
        locs[0]["type"] = "INITIAL"
        c = {"name": name, "clocks": clocks, "locs": locs, "edges": []}
        special = None
        if nloc > 1 and r.random() < p_uni + p_inc:
            uni = r.random() * (p_uni + p_inc) < p_uni
            locs[-1]["type"] = "UNIVERSAL" if uni else "INCONSISTENT"
            if uni or r.random() < .5:
                locs[-1]["inv"] = TRUE
            special = nloc - 1
        def add(s, t, a, io, g, u):
            c["edges"].append({"id": "", "s": s, "t": t, "a": a, "io": io, "g": g, "u": u})
        for s in range(nloc):
            for io, acts in (("I", ins), ("O", outs)):
                for a in acts:
                    if r.random() > p_edge:
                        continue
                    if nclk and r.random() < p_split:
                        g1, g2 = self.split(nclk)
                        gs = [g1, g2] if r.random() < 0.7 else [g1]
                    else:
                        gs = [self.guard(nclk)]
                    for g in gs:
                        add(s, r.randrange(nloc), a, io, g, self.resets(nclk, vals=vals))
                    if not det and r.random() < 0.3:
                        add(s, r.randrange(nloc), a, io, self.guard(nclk), self.resets(nclk, vals=vals))
        # every action must occur, or it is not in the component's sort
        for io, acts in (("I", ins), ("O", outs)):
            for a in acts:
                if not any(e["a"] == a for e in c["edges"]):
                    add(r.randrange(nloc), r.randrange(nloc), a, io, self.guard(nclk), self.resets(nclk, vals=vals))
        if consistent:
            for s in range(nloc):
                if locs[s]["inv"] != TRUE and s != special:
                    self.escape(c, s, r.choice(outs))
        if special is not None and r.random() < .7:
            for a in [e for e in c["edges"] if e["s"] == special]:
                if sum(1 for e in c["edges"] if e["a"] == a["a"]) > 1:
                    c["edges"].remove(a)
            add(special, special, "*", "I", TRUE, [])
            if locs[special]["type"] == "UNIVERSAL":
                add(special, special, "*", "O", TRUE, [])
        r.shuffle(c["edges"])
        for i, e in enumerate(c["edges"]):
            e["id"] = "E%d" % i
        return c

    def escape(self, c, s, a):
        """Gives location s an output a that is enabled whenever the location's invariant holds."""
        c["edges"] = [e for e in c["edges"] if not (e["s"] == s and e["a"] == a)]
        n = len(c["clocks"])
        t = self.r.randrange(len(c["locs"]))
        u = [[k, 0] for k in range(1, n + 1)]
        g = TRUE
        inv = c["locs"][s]["inv"]
        if len(inv[0]) == 1 and self.r.random() < 0.6:
            k, _, strict, m = inv[0][0]
            if not strict:
                lo = self.r.randint(0, m)
                g = [[ge(k, lo)]]
        c["edges"].append({"id": "", "s": s, "t": t, "a": a, "io": "O", "g": g, "u": u})

    def mutate(self, c, name, times=1):
        """A near copy, for verdicts that hang on little."""
        r = self.r
        c = copy.deepcopy(c)
        c["name"] = name
        c.pop("clean", None)
        n = len(c["clocks"])
        for _ in range(times):
            kind = r.choice(["guard", "guard", "inv", "drop", "reset", "target", "add", "loosen", "tighten"])
            # The edges on all actions belong to the special locations.
            special = [e for e in c["edges"] if e["a"] == "*"]
            es = [e for e in c["edges"] if e["a"] != "*"]
            if kind == "inv" and n:
                l = r.choice(c["locs"])
                if l["inv"] != TRUE:
                    a = l["inv"][0][0]
                    if r.random() < 0.3:
                        l["inv"] = TRUE
                    else:
                        a[3] = max(1, a[3] + r.choice([-1, 1]))
                        a[2] = a[2] if r.random() < .7 else not a[2]
            elif kind in ("guard", "loosen", "tighten") and n and es:
                e = r.choice(es)
                if e["g"] == TRUE or not e["g"]:
                    e["g"] = [[self.atom(r.randint(1, n))]]
                elif kind == "loosen":
                    e["g"] = TRUE
                else:
                    a = r.choice(e["g"][0]) if e["g"][0] else None
                    if a:
                        if r.random() < .5:
                            a[2] = not a[2]
                        else:
                            a[3] += r.choice([-1, 1])
                        if a[0] == 0 and a[3] > 0 or a[0] and a[3] < 0:
                            a[3] = 0
            elif kind == "drop" and len(es) > 1:
                e = r.choice(es)
                if sum(1 for f in es if f["a"] == e["a"]) > 1:
                    es.remove(e)
            elif kind == "reset" and n and es:
                e = r.choice(es)
                e["u"] = self.resets(n)
            elif kind == "target" and es:
                r.choice(es)["t"] = r.randrange(len(c["locs"]))
            elif kind == "add" and es:
                e = copy.deepcopy(r.choice(es))
                e["s"] = r.randrange(len(c["locs"]))
                if not any(f["s"] == e["s"] and f["a"] == e["a"] for f in es):
                    es.append(e)
        for i, e in enumerate(c["edges"]):
            e["id"] = "E%d" % i
        return c


def write(path, objs):
    with open(path, "w") as f:
        for o in objs:
            f.write(json.dumps(o) + "\n")
