"""Reads a component file as the engine writes it back into the form that gen.py generates.

The texts of guards are read here and not by the engine: a client of the engine reads them with the
documented grammar, in which || binds tighter than && and numbers have no sign."""
import re

TOKEN = re.compile(r"\s*(\d+|[A-Za-z_]\w*|<=|>=|==|!=|&&|\|\||[-+<>()!])")


class Unreadable(Exception):
    pass


def tokens(s):
    out, k = [], 0
    while s[k:].strip():
        m = TOKEN.match(s, k)
        if not m:
            raise Unreadable(s)
        out.append(m.group(1))
        k = m.end()
    return out


class Guard:
    def __init__(self, text, clocks):
        self.text, self.ts, self.k, self.clocks = text, tokens(text), 0, clocks

    def peek(self):
        return self.ts[self.k] if self.k < len(self.ts) else None

    def take(self, want=None):
        t = self.peek()
        if t is None or want is not None and t != want:
            raise Unreadable(self.text)
        self.k += 1
        return t

    def all(self):
        d = self.conj()
        if self.peek() is not None:
            raise Unreadable(self.text)
        return d

    # Disjunctions of conjunctions throughout.
    def conj(self):
        d = self.disj()
        while self.peek() == "&&":
            self.take()
            e = self.disj()
            d = [p + q for p in d for q in e]
        return d

    def disj(self):
        d = self.atom()
        while self.peek() == "||":
            self.take()
            d = d + self.atom()
        return d

    def atom(self):
        t = self.peek()
        if t in ("true", "false"):
            self.take()
            return [[]] if t == "true" else []
        if t == "(":
            self.take()
            d = self.conj()
            self.take(")")
            return d
        l = self.sum()
        o = self.take()
        r = self.sum()
        return self.compare(l, o, r)

    def sum(self):
        """Coefficients of the clocks and the constant."""
        cs, c, sign = {}, 0, 1
        while True:
            t = self.take()
            if t.isdigit():
                c += sign * int(t)
            elif t in self.clocks:
                i = self.clocks.index(t) + 1
                cs[i] = cs.get(i, 0) + sign
            else:
                raise Unreadable(self.text)
            if self.peek() not in ("+", "-"):
                return cs, c
            sign = 1 if self.take() == "+" else -1

    def compare(self, l, o, r):
        if o in (">", ">="):
            return self.compare(r, o.replace(">", "<"), l)
        if o == "==":
            return [a + b for a in self.compare(l, "<=", r) for b in self.compare(r, "<=", l)]
        if o not in ("<", "<="):
            raise Unreadable(self.text)
        cs = dict(l[0])
        for i, n in r[0].items():
            cs[i] = cs.get(i, 0) - n
        c = r[1] - l[1]
        plus = [i for i, n in cs.items() if n == 1]
        minus = [i for i, n in cs.items() if n == -1]
        if len(plus) > 1 or len(minus) > 1 or any(n not in (-1, 0, 1) for n in cs.values()):
            raise Unreadable(self.text)
        if not plus and not minus:
            return [[]] if 0 < c or o == "<=" and c == 0 else []
        return [[[plus[0] if plus else 0, minus[0] if minus else 0, o == "<", c]]]


def guard(text, clocks):
    return Guard(text, clocks).all() if text.strip() else [[]]


def component(j, name=None):
    """A component file as a component of gen.py."""
    decl = [x.strip() for x in j["declarations"].replace("\n", " ").split(";") if x.strip()]
    clocks = []
    for x in decl:
        if not x.startswith("clock "):
            raise Unreadable(x)
        clocks += [y.strip() for y in x[6:].split(",")]
    if len(set(clocks)) != len(clocks):
        raise Unreadable(j["declarations"])
    ids = [l["id"] for l in j["locations"]]
    if len(set(ids)) != len(ids):
        raise Unreadable("two locations with one id: %s" % ids)
    c = {"name": name or j["name"], "clocks": clocks, "edges": [],
         "locs": [{"id": l["id"], "inv": guard(l["invariant"], clocks), "type": l["type"]} for l in j["locations"]]}
    for e in j["edges"]:
        u = []
        for x in [x.strip() for x in e["update"].split(",") if x.strip()]:
            m = re.fullmatch(r"(\w+)\s*=\s*(\d+)", x)
            if not m or m.group(1) not in clocks:
                raise Unreadable(x)
            u.append([clocks.index(m.group(1)) + 1, int(m.group(2))])
        c["edges"].append({"id": e["id"], "s": ids.index(e["sourceLocation"]), "t": ids.index(e["targetLocation"]),
                           "a": e["sync"], "io": {"INPUT": "I", "OUTPUT": "O"}[e["status"]],
                           "g": guard(e["guard"], clocks), "u": u})
    return c
