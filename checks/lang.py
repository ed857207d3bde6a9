"""The language checks (L): guards, updates, files and queries."""
import collections, itertools, json, os, random, time
import gen, vlib
from vlib import *
from engine import drive, batches, seed

CLOCKS = ["x", "y"]
INTS = {"n": 2, "m": 5}
GAPS = ["", "", "", " ", " ", "  ", "\t", "\n", "\r\n"]


def lang_model(rep, d, what, kind, terms=0, depth=0, given=None, ints=INTS, timeout=800):
    """What the specification says about every guard it derives, or about the given ones."""
    cfg = "SPECIFICATION %s\nCHECK_DEADLOCK FALSE\nINVARIANT Emit Derived\nCONSTANTS\n Kind = \"%s\"\n Terms = %d\n Depth = %d\n VN = %d\n VM = %d\n" % (
        "Given" if given is not None else "Spec", kind, terms, depth, ints["n"], ints["m"])
    env = {}
    path = os.path.join(d, "c%d.ndjson" % time.time_ns())
    if given is not None:
        gen.write(path, [{"s": s} for s in given])
        env["CASES"] = path
    r = tlc("lang/Guards", cfg, d, env=env, timeout=timeout, heap="12g")
    if r.violated:
        log("\n".join(r.tail[-40:]))
        raise ToolError("the specification Guards breaks its own %s" % r.violated)
    rep.model(r, what)
    out = [(x["s"], x["j"]) for x in sorted(vlib.cases(r.path), key=lambda x: x["c"])]
    os.unlink(r.path)
    return out


def text(r, toks):
    """The tokens as a text, with arbitrary space between them."""
    out = ""
    for t in toks:
        g = r.choice(GAPS)
        if not g and out and (out[-1].isalnum() or out[-1] == "_") and (t[0].isalnum() or t[0] == "_"):
            g = " "
        if not g and out and out[-1] in "<>=:&|" and t[0] in "<>=:&|":
            g = " "
        out += g + t
    return out + r.choice(GAPS)


class Words:
    """Random token sequences, most of them guards."""

    def __init__(self, r):
        self.r = r

    def fac(self, d):
        r = self.r.random()
        if d > 0 and r < .15:
            return ["("] + self.arith(d - 1) + [")"]
        if r < .5:
            return [self.r.choice(["x", "y", "x", "y", "n", "m"])]
        return [str(self.r.choice([0, 1, 1, 2, 2, 3, 4, 5, 7, 9]))]

    def arith(self, d, p=.45):
        s = self.fac(d)
        while self.r.random() < p:
            s += [self.r.choice("++---*/%")] + self.fac(d)
            p *= .7
        return s

    def simple(self, d):
        """A comparison that must be understood, dressed up with numbers."""
        r = self.r
        def num():
            return r.choice([[str(r.randint(0, 4))], [r.choice("nm")],
                             ["("] + [str(r.randint(0, 5)), r.choice("+-*"), str(r.randint(0, 3))] + [")"],
                             [str(r.randint(2, 9)), r.choice("/%"), str(r.randint(1, 4))]])
        def dress(s):
            for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
                s = r.choice([s + ["+"] + num(), s + ["-", "("] + num() + [")"], num() + ["+"] + s,
                              ["("] + s + [")"], s + ["-", str(r.randint(0, 3))],
                              num() + ["-", "(", str(r.randint(0, 3)), "-", "("] + s + [")", ")"]])
            return s
        c = r.choice([["x"], ["y"], ["x", "-", "y"], ["y", "-", "x"], None, None])
        if c is None:
            a, b = r.choice([("x", "y"), ("y", "x")])
            l, q = dress([a]), dress([b])
        else:
            l, q = dress(c), dress(num())
        if r.random() < .4:
            l, q = q, l
        return l + [r.choice(["<", "<=", "==", ">=", ">"])] + q

    def term(self, d):
        r = self.r.random()
        if d > 0 and r < .25:
            return ["("] + self.bool(d - 1) + [")"]
        if r < .33:
            return [self.r.choice(["true", "false"])]
        if r < .85:
            return self.simple(1)
        return self.arith(1) + [self.r.choice(["<", "<=", "==", ">=", ">"])] + self.arith(1)

    def bool(self, d, p=.5):
        s = self.term(d)
        while self.r.random() < p:
            s += [self.r.choice(["&&", "||"])] + self.term(d)
            p *= .8
        return s

    def update(self):
        r = self.r
        s = []
        for i in range(r.choice([0, 1, 1, 2, 2, 3, 4])):
            if i:
                s.append(",")
            e = self.arith(2)
            if r.random() < .85:
                e = [str(r.randint(0, 9)) if t in ("x", "y", "n", "m") else t for t in e]
            s += [r.choice("xy"), r.choice(["=", ":="])] + e
        if s and r.random() < .2:
            s.append(",")
        return s

    def spoil(self, s, words):
        r = self.r
        s = list(s)
        for _ in range(r.choice([1, 1, 2])):
            k = r.randrange(len(s) + 1)
            w = r.random()
            if w < .4 and s:
                del s[min(k, len(s) - 1)]
            elif w < .7:
                s.insert(k, r.choice(words))
            elif s:
                s[min(k, len(s) - 1)] = r.choice(words)
        return s

    GW = ["x", "y", "n", "1", "3", "2147483648", "99999999999", "(", ")", "&&", "||", "<", "<=", "==", ">", "+", "-", "*", "true", ";"]
    UW = ["x", "y", "1", "99999999999", "(", ")", ",", "=", ":=", "+", "-", "<"]

    def guard_case(self):
        s = self.bool(self.r.choice([0, 1, 2, 3]))
        if self.r.random() < .1:
            s.append(";")
        return self.spoil(s, self.GW) if self.r.random() < .2 else s

    def update_case(self):
        s = self.update()
        return self.spoil(s, self.UW) if self.r.random() < .2 else s


def show_at(at, side=9):
    return ["%g,%g" % ((i - 1) // side / 2, (i - 1) % side / 2) for i in at[:40]]


def ask_texts(d, op, texts):
    size = 200
    cases = [{"id": i, "op": op, "texts": texts[i:i + size], "clocks": CLOCKS, "ints": INTS, "side": 9}
             for i in range(0, len(texts), size)]
    return [a for o in drive(cases, d) for a in (o.get("answers") or [{"r": "panic", "why": o.get("panic")}] * size)]


def judge_guard(t, toks, j, a):
    """What is wrong with the answer `a` about the text t, if anything."""
    if j["is"] == "undefined":
        return None
    if a["r"] == "panic":
        return "crashed"
    if j["is"] == "refused":
        return None if a["r"] == "refused" else "is not a guard, but was understood"
    if a["r"] == "refused":
        return "was refused" if j["is"] == "must" else None
    if a["at"] != j["at"]:
        return "was misunderstood"
    return None


def compare_guards(rep, d, cs, r, what):
    texts = [text(r, s) for s, _ in cs]
    n = collections.Counter()
    for t, (s, j), a in zip(texts, cs, ask_texts(d, "guard", texts)):
        n[j["is"]] += 1
        w = judge_guard(t, s, j, a)
        if w:
            rep.violation("the guard " + w, {"text": t, "specification": j["is"], "admits": show_at(j["at"]),
                                             "code": a["r"], "why": a.get("why"), "code admits": show_at(a.get("at", []))})
    rep.validated(len(cs), what + " " + str(dict(n)))
    if cs:
        rep.sample({"text": texts[len(texts) // 2], "specification": cs[len(cs) // 2][1]["is"]})


def compare_updates(rep, d, cs, r, what):
    texts = [text(r, s) for s, _ in cs]
    for t, (s, j), a in zip(texts, cs, ask_texts(d, "update", texts)):
        if j["is"] == "undefined":
            continue
        if a["r"] == "panic":
            w = "crashed"
        elif j["is"] == "refused":
            w = None if a["r"] == "refused" else "is not an update, but was understood"
        else:
            w = "was refused" if a["r"] == "refused" else None if a["list"] == j["at"] else "was misunderstood"
        if w:
            rep.violation("the update " + w, {"text": t, "specification": j, "code": a})
    rep.validated(len(cs), what)


def l01(rep, tier, d):
    thorough = tier != "quick"
    r = random.Random(seed("L01", 0))
    compare_guards(rep, d, lang_model(rep, d, "guards over few atoms", "bool", 4 if thorough else 3, 2 if thorough else 1),
                   r, "derived guards")
    compare_guards(rep, d, lang_model(rep, d, "comparisons", "arith", 3, 1), r, "derived comparisons")
    for b, n in batches(tier, 12000, 600, 12000):
        w = Words(random.Random(seed("L01", b + 1)))
        compare_guards(rep, d, lang_model(rep, d, "random guards", "bool", given=[w.guard_case() for _ in range(n)]),
                       w.r, "random guards")
        compare_updates(rep, d, lang_model(rep, d, "random updates", "update", given=[w.update_case() for _ in range(n // 3)]),
                        w.r, "random updates")


# ------------------------------------------------------------------ L02
ZERO = {"n": 0, "m": 0}     # declared integers start at 0


def declared(r, clocks, ints):
    """A declaration text that declares them."""
    ws = [("clock", c) for c in clocks] + [("int", i) for i in ints]
    style = r.random()
    sep = r.choice([";\n", "; ", ";"])
    if style < .5:
        parts = [k + " " + r.choice([", ", ","]).join(n for q, n in ws if q == k) for k in ("clock", "int")
                 if any(q == k for q, _ in ws)]
    else:
        parts = [k + " " + n for k, n in ws]
    t = sep.join(parts) + (";" if parts else "")
    return ("// clocks\n" if r.random() < .1 else "") + t


def l02(rep, tier, d):
    for b, n in batches(tier, 2000, 600, 2000):
        r = random.Random(seed("L02", b))
        w = Words(r)
        guards = [s for s, j in lang_model(rep, d, "guards of the components", "bool", ints=ZERO,
                                           given=[w.bool(r.choice([0, 1, 2, 3])) for _ in range(3 * n)]) if j["is"] == "must"
                  for s in [(s, j)]]
        updates = [(s, j) for s, j in lang_model(rep, d, "updates of the components", "update", ints=ZERO,
                                                 given=[w.update() for _ in range(n)]) if j["is"] == "must"]
        cs = []
        for k in range(n):
            ints = r.choice([[], ["n", "m"], ["n", "m"]])
            plain = [g for g in r.sample(guards, 12) if ints or not set(g[0]) & {"n", "m"}]
            def some(p):
                return r.choice(plain) if plain and r.random() < p else None
            locs = [("L%d" % i, "INITIAL" if i == 0 else r.choice(["NORMAL"] * 4 + ["UNIVERSAL", "INCONSISTENT"]), some(.4))
                    for i in range(r.randint(1, 4))]
            edges = [("E%d" % i, r.choice(locs)[0], r.choice(locs)[0], r.choice(["a", "b", "long_name2", "*"]),
                      r.choice(["INPUT", "OUTPUT"]), some(.7), r.choice(updates) if r.random() < .5 else None)
                     for i in range(r.randint(0, 5))]
            order = r.sample(CLOCKS, 2)
            comp = {"name": "C%d" % k, "declarations": declared(r, order, ints),
                    "locations": [{"id": i, "nickname": "", "invariant": text(r, g[0]).strip() if g else "", "type": t,
                                   "urgency": "NORMAL", "x": 0.0, "y": 0.0, "color": "1", "nicknameX": 0.0,
                                   "nicknameY": 0.0, "invariantX": 0.0, "invariantY": 0.0} for i, t, g in locs],
                    "edges": [{"id": i, "group": "", "sourceLocation": s, "targetLocation": t, "status": io, "select": "",
                               "guard": text(r, g[0]).strip() if g else "", "update": text(r, u[0]).strip() if u else "",
                               "sync": a + r.choice(["", "?" if io == "INPUT" else "!"]), "isLocked": False, "nails": []}
                              for i, s, t, a, io, g, u in edges],
                    "description": "", "x": 1.0, "y": 1.0, "width": 1.0, "height": 1.0, "color": "2",
                    "includeInPeriodicCheck": False}
            at = lambda g: {"r": "ok", "at": g[1]["at"]} if g else None
            up = lambda u: [[CLOCKS[c - 1], str(v)] for c, v in u[1]["at"]] if u and u[0] else None
            title = {"INITIAL": "Initial", "NORMAL": "Normal", "UNIVERSAL": "Universal", "INCONSISTENT": "Inconsistent",
                     "INPUT": "Input", "OUTPUT": "Output"}
            cs.append((comp, {"r": "ok", "name": comp["name"], "clocks": CLOCKS, "places": [1, 2], "ints": sorted(ints),
                              "locations": [[i, title[t], "NORMAL", at(g)] for i, t, g in locs],
                              "edges": [[i, s, t, a, title[io], at(g), up(u)] for i, s, t, a, io, g, u in edges]}))
        out = drive([{"id": k, "op": "roundtrip", "comp": c, "names": CLOCKS, "side": 9} for k, (c, _) in enumerate(cs)], d)
        for (c, want), a in zip(cs, out):
            diff = [k for k in want if a.get(k) != want[k]]
            if diff:
                k = diff[0] if "r" not in diff else "r"
                rep.violation("a written and read back component has other " + k if k != "r" else "a written component cannot be read back",
                              {"component": c, "written": a.get("written"), "why": a.get("why") or a.get("panic"),
                               "differs": [[x, y] for x, y in zip(want[k], a.get(k) or []) if x != y][:2] if k not in ("r", "name") else k})
        rep.validated(len(cs), "components written and read back")
        rep.sample(cs[0][0])
        compare_written(rep, d, guards)


def compare_written(rep, d, cs):
    """Guards written and read back, one by one."""
    r = random.Random(1)
    texts = [text(r, s) for s, _ in cs]
    size = 200
    ask = [{"id": i, "op": "guard", "texts": texts[i:i + size], "clocks": CLOCKS, "ints": ZERO, "side": 9}
           for i in range(0, len(texts), size)]
    out = [a for o in drive(ask, d) for a in o["answers"]]
    for t, (s, j), a in zip(texts, cs, out):
        if a["r"] == "ok" and (a["again"]["r"] != "ok" or a["again"]["at"] != j["at"]):
            rep.violation("a guard written and read back means something else", {"text": t, "written": a["written"], "why": a["again"]["r"]})
    rep.validated(len(texts), "guards written and read back")


# ------------------------------------------------------------------ L03
def query_model(rep, d, what, start="query", terms=0, depth=1, given=None, timeout=800):
    cfg = "SPECIFICATION %s\nCHECK_DEADLOCK FALSE\nINVARIANT Emit Derived\nCONSTANTS\n Start = \"%s\"\n Terms = %d\n Depth = %d\n" % (
        "Given" if given is not None else "Spec", start, terms, depth)
    env = {}
    path = os.path.join(d, "c%d.ndjson" % time.time_ns())
    if given is not None:
        gen.write(path, [{"s": s} for s in given])
        env["CASES"] = path
    r = tlc("lang/Queries", cfg, d, env=env, timeout=timeout, heap="12g")
    if r.violated:
        log("\n".join(r.tail[-40:]))
        raise ToolError("the specification Queries breaks its own %s" % r.violated)
    rep.model(r, what)
    out = [(x["s"], x["j"]) for x in sorted(vlib.cases(r.path), key=lambda x: (x["c"], x["s"]))]
    os.unlink(r.path)
    return out


def query_text(r, toks):
    """The tokens as a text, with arbitrary space between them."""
    out, before = "", ""
    inside = False
    for t in toks:
        g = r.choice(GAPS)
        need = out and (out[-1].isalnum() or out[-1] == "_") and (t[0].isalnum() or t[0] in "_-")
        need = need or out and out[-1] in "<>=:&|!-/\\" and t[0] in "<>=:&|-/\\"
        if inside or before == "[" or t == "]":
            g = ""              # blanks in the brackets would be a part of the identifier
        elif not g and need:
            g = " "
        inside = before == "["
        out += g + t
        before = t
    return out + r.choice(GAPS)


class QueryWords(Words):
    NAMES = ["A", "B", "Machine", "notify", "node_2", "trueish", "initial", "android", "orc", "x", "falsey",
             "init", "not", "true", "and", "or"]

    def comp(self):
        s = [self.r.choice(self.NAMES)]
        if self.r.random() < .25:
            s += ["[", self.r.choice(["1", "a b", "x-1", "@!", "B", "12", "99999999999"]), "]"]
        return s

    def sys(self, d, p=.5):
        r = self.r
        s = ["("] + self.sys(d - 1) + [")"] if d > 0 and r.random() < .3 else self.comp()
        while r.random() < p:
            s += [r.choice(["//", "\\\\", "||", "&&"])]
            s += ["("] + self.sys(d - 1) + [")"] if d > 0 and r.random() < .3 else self.comp()
            p *= .8
        return s

    def var(self):
        return self.comp() + [".", self.r.choice(["L1", "x", "y", "notx", "init2"])]

    def diff(self):
        r = self.r
        s = []
        while True:
            s += self.var() if r.random() < .5 else [r.choice(["0", "1", "3", "12", "45"])]
            if r.random() < .6:
                return s
            s.append(r.choice("-+"))

    def sub(self, d):
        r = self.r
        k = r.random()
        if d > 0 and k < .25:
            return ["("] + self.state(d - 1) + [")"]
        if d > 0 and k < .4:
            return [r.choice(["not", "!"])] + self.state(d - 1)
        if k < .6:
            return self.diff() + [r.choice(["<", "<=", "==", ">=", ">"])] + self.diff()
        return [r.choice(["true", "false"])] if k < .7 else self.var()

    def state(self, d, p=.5):
        s = self.sub(d)
        while self.r.random() < p:
            s += [self.r.choice(["&&", "and", "||", "or"])] + self.sub(d)
            p *= .8
        return s

    def query(self):
        r = self.r
        k = r.random()
        if k < .2:
            s = ["refinement:"] + self.sys(2) + ["<="] + self.sys(2)
        elif k < .4:
            s = [r.choice(["consistency:", "determinism:", "implementation:", "specification:"])] + self.sys(2)
        elif k < .8:
            s = ["reachability:"] + self.sys(1) + ["@"] + (["init"] if r.random() < .5 else self.state(1)) + ["->"] + self.state(2)
        else:
            s = [r.choice(["get-component:", "prune:", "bisim-minim:"])] + self.sys(2)
            if r.random() < .6:
                s += ["save-as", r.choice(self.NAMES)]
        return s if r.random() < .8 else s + [";"] + self.query()

    QW = ["A", "notify", "(", ")", "[", "]", ".", ";", "@", "->", "-", "!", "not", "&&", "||", "//", "<=", "==", "save-as",
          "init", "true", "1", "99999999999", "refinement:", "consistency:"]

    def query_case(self):
        s = self.query()
        return bracketed(self.spoil(s, self.QW)) if self.r.random() < .25 else s


def bracketed(s):
    """What is between brackets is one token, whatever it looks like."""
    out = []
    for t in s:
        if len(out) > 1 and out[-2] == "[" and out[-1] not in "[]" and t not in "[]":
            out[-1] += t
        else:
            out.append(t)
    return out


def glued(s):
    """'3 orc.x' reads as '3 or c.x': texts without tokens of their own are left out."""
    return any(b[:2] == "or" and b != "or" or b[:3] == "and" and b != "and" for a, b in zip(s, s[1:])
               if a[-1].isalnum() or a[-1] in "_)]")


def compare_queries(rep, d, cs, r, what):
    texts = [query_text(r, s) for s, _ in cs]
    size = 200
    ask = [{"id": i, "op": "parse", "texts": texts[i:i + size]} for i in range(0, len(texts), size)]
    out = [a for o in drive(ask, d) for a in o["answers"]]
    n = collections.Counter()
    for t, (s, j), a in zip(texts, cs, out):
        n[j["is"]] += 1
        w = ("crashed" if a["r"] == "panic" else None if a["r"] == j["is"] == "refused" else
             "is not a query, but was understood" if j["is"] == "refused" else
             "was refused" if a["r"] == "refused" else None if a["t"] == j["t"] else "was misunderstood")
        if w:
            rep.violation("the query " + w, {"text": t, "specification": j, "code": a})
    rep.validated(len(cs), what + " " + str(dict(n)))
    if cs:
        rep.sample({"text": texts[len(texts) // 2], "specification": cs[len(cs) // 2][1]})


def l03(rep, tier, d):
    more = 0 if tier == "quick" else 1
    r = random.Random(seed("L03", 0))
    for start, n in (("query", 4), ("sys", 5), ("state", 4 + more)):
        compare_queries(rep, d, query_model(rep, d, "derived: " + start, start, n), r, "derived: " + start)
    for b, n in batches(tier, 15000, 600, 15000):
        w = QueryWords(random.Random(seed("L03", b + 1)))
        cs = [w.query_case() for _ in range(n)]
        compare_queries(rep, d, query_model(rep, d, "random queries", given=[s for s in cs if s and not glued(s)]), w.r, "random queries")


CHECKS = {"L01": l01, "L02": l02, "L03": l03}


def main(prop, tier):
    rep = Report(prop, tier)
    with Scratch() as d:
        CHECKS[prop](rep, tier, d)
    return rep.finish()
