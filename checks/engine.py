"""The engine's checks: verdicts (V), operators (O), transformations (M).

Every check generates systems, lets TLC work out from the specification in spec/tioa what their
answers must be, asks the real engine the same questions (harness/drive) and compares."""
import collections, copy, json, os, re, subprocess, time
import gen, vlib
from gen import *
from vlib import *


# ------------------------------------------------------------------ running
def drive(cases, scratch, timeout=600):
    """Answers of the real engine, one per case."""
    b = build("drive")
    i = os.path.join(scratch, "in%d.ndjson" % time.time_ns())
    o = i + ".out"
    gen.write(i, cases)
    with open(i) as fi, open(o, "w") as fo:
        try:
            p = subprocess.run([os.path.join(b, "drive")], stdin=fi, stdout=fo,
                               stderr=subprocess.PIPE, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("the driver timed out")
    if p.returncode:
        raise ToolError("the driver failed (%d): %s" % (p.returncode, p.stderr[-500:]))
    with open(o) as f:
        out = [json.loads(l) for l in f]
    if len(out) != len(cases):
        raise ToolError("the driver answered %d of %d" % (len(out), len(cases)))
    for x in (i, o):
        os.unlink(x)
    return out


def model(rep, d, module, what, specs, spec="Spec", invs=("Emit",), timeout=800):
    """Runs TLC on the cases; returns what the specification printed, by case number."""
    path = os.path.join(d, "c%d.ndjson" % time.time_ns())
    gen.write(path, specs)
    cfg = "SPECIFICATION %s\nCHECK_DEADLOCK FALSE\n%s" % (spec, "".join("INVARIANT %s\n" % i for i in invs))
    r = tlc("tioa/" + module, cfg, d, env={"CASES": path}, timeout=timeout, heap="12g")
    if r.violated:
        log("\n".join(r.tail[-40:]))
        raise ToolError("the specification %s breaks its own %s" % (module, r.violated))
    rep.model(r, what)
    out = collections.defaultdict(list)
    for x in vlib.cases(r.path):
        out[x["c"] - 1].append(x)
    os.unlink(r.path)
    os.unlink(path)
    return out


def leaves(t):
    return [t[1]] if t[0] == "c" else leaves(t[1]) + leaves(t[2])


def ops(t):
    return set() if t[0] == "c" else {t[0]} | ops(t[1]) | ops(t[2])


def depth(t):
    return 0 if t[0] == "c" else 1 + max(depth(t[1]), depth(t[2]))


def mk(id, comps, trees, maxn=6):
    """A case, or None when the operators' conditions do not hold or it is too large."""
    c = Case(id, comps, list(trees))
    if c.n > maxn or not all(c.wf(s) for s in c.sys):
        return None
    used = {x for t in trees for x in leaves(t)}
    c.comps = [x for x in comps if x["name"] in used]
    c.order = [x for t in trees for x in leaves(t)]
    return c


def ask(rep, d, cs, rng, reduce=lambda c: False, timeout=800):
    """Asks the real engine every case's queries (c.q or c.qs)."""
    dc = []
    for k, c in enumerate(cs):
        c.files = [comp_json(x, rng) for x in c.comps]
        qs = getattr(c, "qs", None) or [c.q]
        dc.append({"id": k, "op": "query", "comps": c.files,
                   "queries": [q if isinstance(q, list) else [q, reduce(c)] for q in qs]})
    return [o.get("answers") or [{"r": "panic", "panic": o.get("panic")}] * len(x["queries"])
            for o, x in zip(drive(dc, d, timeout), dc)]


def kind(a):
    return a["r"] + (":" + a["f"]["why"] if isinstance(a.get("f"), dict) else "")


CRASH = ("panic", "status", "error", "none")


def viol(rep, what, c, a, want):
    rep.violation(what, {"query": getattr(c, "q", None) or getattr(c, "qs", None), "answer": a, "specification": want,
                         "components": [show(x) for x in c.comps], "files": getattr(c, "files", None)})


def show(x):
    n = x["clocks"]
    def dt(g):
        return dnf_text(g, n) or "true"
    return {"name": x["name"], "clocks": n, "in": actions_of(x, "I"), "out": actions_of(x, "O"),
            "locations": ["%s %s %s" % (l["id"], dt(l["inv"]), l["type"]) for l in x["locs"]],
            "edges": ["%s: %s -%s%s [%s] %s-> %s" % (
                e["id"], x["locs"][e["s"]]["id"], e["a"], "?" if e["io"] == "I" else "!", dt(e["g"]),
                ",".join("%s=%d" % (n[k - 1], v) for k, v in e["u"]), x["locs"][e["t"]]["id"]) for e in x["edges"]]}


def batches(tier, quick, thorough_s, size):
    """Batch numbers with their sizes: a fixed amount for quick, a time for thorough."""
    if tier == "quick":
        b = 0
        while quick > 0:
            yield b, min(size, quick)
            quick -= size
            b += 1
        return
    t0, b = time.time(), 0
    while b == 0 or time.time() - t0 < thorough_s:
        yield b, size
        b += 1


def seed(prop, b):
    return "%s/%d/%d" % (prop, SEED, b)


# ------------------------------------------------------------------ generators
def family(g):
    """Components to build systems from: A, B compose; M, N are near copies; X has A's actions."""
    r = g.r
    A = g.comp("A", ["a"], ["b"] if r.random() < .5 else ["b", "d"], nclk=r.randint(0, 2), p_inc=.08)
    M = g.mutate(A, "M", r.randint(1, 2))
    B = g.comp("B", ["b"], ["c"], nclk=r.randint(0, 1), p_inc=.05)
    N = g.mutate(B, "N", 1)
    X = g.comp("X", ["a"], ["b"], nclk=1)
    for c in (A, B, X):
        c["clean"] = not any(l["type"] == "INCONSISTENT" for l in c["locs"])
    return [A, M, B, N, X]


def pair(g):
    a, m, b, n, x = [leaf(q) for q in "AMBNX"]
    return g.r.choice([
        (a, m), (m, a), (a, m), (m, a), (a, x), (x, a), (par(a, b), par(m, b)), (par(a, b), par(m, n)),
        (par(a, b), par(b, a)), (conj(a, m), a), (conj(a, m), conj(m, a)), (a, conj(m, a)), (x, conj(a, m)),
        (m, quo(par(a, b), b)), (a, quo(par(a, b), n)), (quo(par(a, b), b), a),
        (quo(par(a, b), b), quo(par(m, b), b)), (b, quo(par(a, b), m)), (quo(a, b), quo(m, b)),
        (par(m, quo(par(a, b), m)), par(a, b)), (par(conj(a, m), b), par(a, n)), (par(a, conj(b, n)), par(m, b))])


def big(g):
    """A pair of larger components."""
    r = g.r
    A = g.comp("A", ["a", "c"], ["b", "d"], nclk=r.choice([1, 1, 2, 2, 3]), nloc=r.randint(3, 5))
    A["clean"] = True
    return [A, g.mutate(A, "M", r.randint(1, 3))]


def long(g):
    """A pair of chains, in which a clock is used beyond what its constants suggest."""
    A = chain(g, "A", [], ["b", "d"] if g.r.random() < .5 else ["b"])
    if g.r.random() < .6:
        k = g.r.randint(0, len(A["locs"]) - 2)
        e = [e for e in A["edges"] if e["s"] == k][0]
        e["g"] = [cj + [g.r.choice([le, lt, ge, gt])(1, g.r.randint(1, 3))] for cj in (e["g"] or [[]])]
    return [A, g.mutate(A, "M", g.r.randint(1, 2))]


def refinements(g, n):
    cs = []
    while len(cs) < n:
        z = g.r.random()
        if z < .35:
            comps = big(g) if z < .17 else long(g)
            p = g.r.choice([(leaf("A"), leaf("M")), (leaf("M"), leaf("A"))])
        else:
            comps, p = family(g), pair(g)
        c = mk(len(cs), comps, p)
        if c is None:
            continue
        c.q = "refinement: %s <= %s" % (qtext(p[0]), qtext(p[1]))
        c.clean = all(x.get("clean") for x in c.comps) and not any("&&" in ops(t) for t in p)
        cs.append(c)
    return cs


def comparable(c):
    l, r = c.sys
    li, lo, ri, ro = c.inputs(l), c.outputs(l), c.inputs(r), c.outputs(r)
    return not (li & ro) and not (ri & lo) and li <= ri and ro <= lo


# ------------------------------------------------------------------ V01
def judge_refinement(rep, c, a, bad):
    """The verdict, against what the specification says; returns the class of the answer."""
    k = kind(a)
    if k in ("model:child", "refinement:child"):
        if c.clean:
            viol(rep, "refused although every component is deterministic and consistent", c, a, "comparable")
        return "refused"
    if k.split(":")[0] in CRASH or k == "model:actions":
        viol(rep, "no verdict", c, a, "holds" if not bad else "fails")
    elif not comparable(c):
        if k != "refinement:actions":
            viol(rep, "answered although the actions cannot be compared", c, a, "actions")
        return "actions"
    elif k == "refinement:actions":
        viol(rep, "refused although the actions can be compared", c, a, "holds" if not bad else "fails")
    elif (k == "ok") != (not bad):
        viol(rep, "wrong verdict", c, a, bad[:3] if bad else "holds")
    return "ok" if not bad else "fails"


def v01(rep, tier, d):
    cnt = collections.Counter()
    for b, n in batches(tier, 900, 600, 300):
        g = Gen(seed("V01", b))
        cs = refinements(g, n)
        bad = model(rep, d, "Refine", "refinement of generated pairs", [c.spec() for c in cs], invs=("Inside",))
        out = ask(rep, d, cs, g.r, reduce=lambda c: c.id % 2 == 1)
        for k, (c, o) in enumerate(zip(cs, out)):
            cnt[judge_refinement(rep, c, o[0], bad[k])] += 1
            if k % 50 == 0:
                rep.sample({"query": c.q, "answer": kind(o[0]), "components": [show(x) for x in c.comps]})
    rep.extra["verdicts"] = dict(cnt)
    rep.validated(cnt["ok"] + cnt["fails"] + cnt["actions"], "refinement verdicts of the engine compared with the specification")



# ------------------------------------------------------------------ V02
def resetting(g, name, ins, outs):
    """A component all of whose edges reset all clocks: what leads to inconsistency is then a
    matter of locations, and the engine's answer is exact."""
    r = g.r
    nloc, n = r.randint(2, 5), r.randint(1, 2)
    locs = [{"id": "L%d" % i, "inv": [[le(r.randint(1, n), r.randint(1, 3))]] if r.random() < .7 else TRUE,
             "type": "NORMAL"} for i in range(nloc)]
    locs[0]["type"] = "INITIAL"
    if nloc > 2 and r.random() < .2:
        locs[-1]["type"] = r.choice(["UNIVERSAL", "INCONSISTENT"])
        locs[-1]["inv"] = TRUE
    c = {"name": name, "clocks": ["x", "y"][:n], "locs": locs, "edges": []}
    def edge(s, io, a, g):
        c["edges"].append({"id": "", "s": s, "t": r.randrange(nloc), "a": a, "io": io, "g": g,
                           "u": [[k + 1, 0] for k in range(n)]})
    for s in range(nloc):
        for io, acts in (("I", ins), ("O", outs)):
            for a in acts:
                if r.random() < (.5 if io == "I" else .45):
                    edge(s, io, a, TRUE if r.random() < .6 else [[g.atom(r.randint(1, n))]] if io == "O"
                         else [[le(r.randint(1, n), r.randint(0, 3))]])
    for io, acts in (("I", ins), ("O", outs)):
        for a in acts:
            if not any(e["a"] == a for e in c["edges"]):
                edge(r.randrange(nloc), io, a, TRUE)
    r.shuffle(c["edges"])
    for i, e in enumerate(c["edges"]):
        e["id"] = "E%d" % i
    return c


def lost_leaf(state):
    return state["loc"][:2] if state and state.get("loc") else None


CONS = {"invs": ("Emit", "Sane"), "spec": "Spec"}


def hand(name, clocks, locs, edges):
    """A component written by hand: locs {name: invariant}, edges (s, io, a, guard, updates, t)."""
    ids = list(locs)
    return {"name": name, "clocks": clocks,
            "locs": [{"id": l, "inv": locs[l], "type": "NORMAL" if k else "INITIAL"} for k, l in enumerate(ids)],
            "edges": [{"id": "E%d" % k, "s": ids.index(e[0]), "t": ids.index(e[5]), "a": e[2], "io": e[1],
                       "g": e[3], "u": e[4]} for k, e in enumerate(edges)]}


def kept_too_long():
    """The input leads to a place whose only output is possible from a part of the zone."""
    return hand("A", ["x"], {"L0": TRUE, "L1": [[le(1, 2)]]},
                [("L0", "I", "a", TRUE, [], "L1"), ("L1", "O", "b", [[le(1, 1)]], [[1, 0]], "L0")])


def left_too_late():
    """The output is safe early and unsafe late: the input can then lead to a dead end."""
    return hand("A", ["x", "y"], {"L0": [[le(2, 3)]], "L1": [[le(1, 1)]], "L2": TRUE, "L3": [[le(1, 1)]]},
                [("L0", "O", "b", TRUE, [[1, 0]], "L1"), ("L1", "O", "d", TRUE, [], "L2"),
                 ("L1", "I", "a", [[ge(2, 2)]], [], "L3")])


def known(prop):
    """The findings listed for a property: name -> text."""
    out = {}
    with open(os.path.join(VERIF, "known_findings.txt")) as f:
        for l in f:
            m = re.match(r"known: property=(\S+) (\S+): (.*)", l)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def witnesses(rep, d):
    """The fixed inputs of the listed findings, judged like everything else."""
    w = [("kept-too-long", kept_too_long()), ("left-too-late", left_too_late())]
    cs = []
    for name, A in w:
        c = mk(len(cs), [A], [leaf("A")])
        c.q = "consistency: A"
        cs.append(c)
    want = model(rep, d, "Consist", "the inputs of the listed findings", [c.spec() for c in cs], invs=CONS["invs"])
    listed = known(rep.prop)
    for (name, A), c, o, x in zip(w, cs, ask(rep, d, cs, Gen(0).r), want.values()):
        if (o[0]["r"] == "ok") != x[0]["ok"]:
            if name in listed:
                rep.known.append("%s: %s" % (name, listed[name]))
            else:
                viol(rep, "wrong verdict on " + name, c, o[0], x)


def v02(rep, tier, d):
    cnt = collections.Counter()
    witnesses(rep, d)
    for b, n in batches(tier, 1300, 600, 1300):
        g = Gen(seed("V02", b))
        r = g.r
        cs = []
        while len(cs) < n:
            exact = r.random() < .6
            if exact:
                A = resetting(g, "A", ["a", "c"], ["b", "d"])
                c = mk(len(cs), [A], [leaf("A")])
                q = "A"
            else:
                A = g.comp("A", ["a", "c"], ["b", "d"], nclk=r.randint(1, 2), consistent=r.random() < .7, p_inv=.6)
                B = g.comp("B", ["b"], ["e"], nclk=r.randint(0, 1))
                M = g.mutate(A, "M", 1)
                t = r.choice([leaf("A"), leaf("A"), conj(leaf("A"), leaf("M"))])
                c = mk(len(cs), [A, B, M], [t])
                q = qtext(t)
            if c is None:
                continue
            c.exact, c.q = exact, "consistency: " + q
            cs.append(c)
        want = model(rep, d, "Consist", "greatest safe set of generated systems", [c.spec() for c in cs], invs=CONS["invs"])
        out = ask(rep, d, cs, r, reduce=lambda c: c.id % 2 == 1)
        for k, (c, o) in enumerate(zip(cs, out)):
            judge_consistency(rep, c, o[0], want[k][0], cnt)
            if k % 90 == 0:
                rep.sample({"query": c.q, "answer": kind(o[0]), "components": [show(x) for x in c.comps]})
    rep.extra["verdicts"] = dict(cnt)
    rep.validated(sum(v for k, v in cnt.items() if k != "undecided"),
                  "consistency verdicts of the engine compared with the specification")


def judge_consistency(rep, c, a, w, cnt):
    k = a["r"]
    if k in CRASH:
        viol(rep, "no verdict", c, a, w)
    elif k == "determinism" or k == "consistency" and a["f"]["why"] == "determinism":
        cnt["nondeterministic"] += 1
    elif k == "model":
        if a["f"]["why"] != "child":
            viol(rep, "no verdict", c, a, w)
        elif w["stuck"] == 0 and a["f"]["child"]["f"].get("why") != "determinism":
            viol(rep, "refused as inconsistent although no reachable state is stuck", c, a, w)
        cnt["refused"] += 1
    elif c.exact:
        cnt["consistent" if w["ok"] else "inconsistent"] += 1
        if (k == "ok") != w["ok"]:
            viol(rep, "wrong verdict", c, a, w)
    elif w["stuck"] == 0 and w["n"] > 0:
        cnt["nothing stuck"] += 1
        if k != "ok":
            viol(rep, "inconsistent although no reachable state is stuck", c, a, w)
    elif w["n"] == 0:
        cnt["no start"] += 1
        if k == "ok":
            viol(rep, "consistent although there is no initial state", c, a, w)
    else:
        cnt["undecided"] += 1


# ------------------------------------------------------------------ V03
def ambiguous(g, n):
    r = g.r
    cs = []
    while len(cs) < n:
        A = g.comp("A", ["a", "c"], ["b", "d"], nclk=r.randint(1, 2), det=r.random() < .6, consistent=False)
        for _ in range(r.choice([0, 1, 2])):
            A = g.mutate(A, "A", 1)
        if r.random() < .6:
            t = leaf("A")
        else:
            t = r.choice([par(leaf("A"), leaf("B")), par(leaf("B"), leaf("A"))])
        B = g.comp("B", ["b"], ["e"], nclk=r.randint(0, 1), det=r.random() < .6)
        c = mk(len(cs), [A, B], [t])
        if c is None:
            continue
        c.q = "determinism: " + qtext(t)
        cs.append(c)
    return cs


def ambiguity(rep, d, cs):
    """For every case the reachable and the possible ambiguities, as (component, location, action)."""
    one, of = [], []
    for k, c in enumerate(cs):
        for n in sorted(set(c.order)):
            one.append(Case(k, [c.by[n]], [leaf(n)]).spec(**{"from": [], "to": []}))
            of.append((k, n))
    out = [(set(), set()) for _ in cs]
    at = model(rep, d, "DetAny", "what edges lead to from the initial location, from any start values", one,
               spec="ASpec", invs=("Here",))
    for j, xs in at.items():
        k, n = of[j]
        out[k][0].update((n, x["l"], a) for x in xs for a in x["a"])
    got = model(rep, d, "DetAny", "ambiguities of all states of all locations", one, spec="LSpec")
    for j, xs in got.items():
        k, n = of[j]
        here = {x["l"] for x in at[j]}
        out[k][1].update((n, x["l"], a) for x in xs for a in x["a"] if x["l"] in here)
    return out


def v03(rep, tier, d):
    cnt = collections.Counter()
    for b, n in batches(tier, 1200, 600, 1200):
        g = Gen(seed("V03", b))
        cs = ambiguous(g, n)
        amb = ambiguity(rep, d, cs)
        out = ask(rep, d, cs, g.r)
        for k, (c, o) in enumerate(zip(cs, out)):
            a, (reach, poss) = o[0], amb[k]
            cnt[("ok" if a["r"] == "ok" else "not") + (" reachable" if reach else " possible" if poss else " none")] += 1
            if a["r"] == "ok":
                if reach:
                    viol(rep, "called deterministic", c, a, sorted(reach))
            elif a["r"] != "determinism":
                viol(rep, "no verdict", c, a, sorted(reach))
            elif not poss:
                viol(rep, "called nondeterministic although no location is ambiguous", c, a, [])
            if k % 90 == 0:
                rep.sample({"query": c.q, "answer": kind(a), "components": [show(x) for x in c.comps]})
    rep.extra["verdicts"] = dict(cnt)
    rep.validated(sum(cnt.values()), "determinism verdicts of the engine compared with the specification")


# ------------------------------------------------------------------ V04, V05
def chain(g, name, ins, outs):
    """A chain of locations in which one clock goes on beyond every constant the component has,
    while another measures each step."""
    r = g.r
    nloc = r.randint(3, 4)
    lim = [r.random() < .4 for _ in range(nloc)]
    k = r.randint(1, 2)
    locs = [{"id": "L%d" % i, "inv": [[le(2, r.randint(k, 2))]] if lim[i] else TRUE, "type": "NORMAL"} for i in range(nloc)]
    locs[0]["type"] = "INITIAL"
    acts = [(a, "I") for a in ins] + [(a, "O") for a in outs]
    c = {"name": name, "clocks": ["x", "y"], "locs": locs, "edges": []}
    def edge(s, t, a, gd, u):
        c["edges"].append({"id": "E%d" % len(c["edges"]), "s": s, "t": t, "a": a[0], "io": a[1], "g": gd, "u": u})
    for i in range(nloc - 1):
        edge(i, i + 1, r.choice(acts), [[r.choice([ge, ge, gt])(2, r.randint(1, k))]] if r.random() < .85 else TRUE,
             [[2, 0]] if r.random() < .85 else [])
    for _ in range(r.randint(0, 2)):
        edge(r.randrange(nloc), r.randrange(nloc), r.choice(acts), [[g.atom(2)]], [[r.randint(1, 2), 0]])
    for a in acts:
        if not any((e["a"], e["io"]) == a for e in c["edges"]):
            edge(r.randrange(nloc), r.randrange(nloc), a, TRUE, [[2, 0]])
    return c


def reachabilities(g, n):
    r = g.r
    cs = []
    while len(cs) < n:
        A = g.comp("A", ["a"], ["b"] if r.random() < .5 else ["b", "d"], nclk=r.randint(0, 2), nloc=r.choice([None, 4, 5, 6]), p_edge=r.choice([.35, .6]),
                   det=r.random() < .5, consistent=r.random() < .5)
        B = g.comp("B", ["b"], ["c"], nclk=r.randint(0, 1), consistent=False)
        long = r.random() < .3
        if long:
            A = chain(g, "A", ["a"], ["b"])
        M = g.mutate(A, "M", r.randint(1, 2))
        a, b, m = leaf("A"), leaf("B"), leaf("M")
        t = r.choice([a, a, a, par(a, b)]) if long else r.choice([a, a, par(a, b), par(a, b), conj(a, m), quo(a, b), quo(a, m), par(conj(a, m), b)])
        c = mk(len(cs), [A, B, M], [t], 5)
        if c is None:
            continue
        order = leaves(t)
        cls = [(o, x) for o in order for x in c.by[o]["clocks"]]
        names = ["%s.%s" % p for p in cls]
        if not quoless(t):
            # the quotient clock is numbered among the others
            idx = [i + 1 for i, nm in enumerate(c.names) if nm != "quotient_xnew"]
        else:
            idx = list(range(1, c.n + 1))
        def constraint(p):
            if not cls or r.random() < p:
                return TRUE, TRUE
            k = [[g.atom(r.randint(1, len(cls))) for _ in range(r.choice([1, 1, 2]))] for _ in range(r.choice([1, 1, 1, 2, 3]))]
            if long and r.random() < .8:
                k = [[r.choice([le, lt, le, lt, ge, gt])(1 + names.index("A.x"), r.randint(1, 5))]]
            return k, [[[idx[i - 1] if i else 0, idx[j - 1] if j else 0, s, v] for i, j, s, v in cj] for cj in k]
        def state(full):
            locs, txt = [], []
            for o in order:
                if full or r.random() < .6:
                    l = r.randrange(len(c.by[o]["locs"]))
                    if not full and r.random() < .7:
                        l = len(c.by[o]["locs"]) - 1
                    locs.append(l + 1)
                    txt.append("%s.%s" % (o, c.by[o]["locs"][l]["id"]))
                else:
                    locs.append(0)
            k, ks = constraint(.5)
            if k != TRUE:
                txt.append(dnf_text(k, names, r))
            return locs, ks, " && ".join(txt) or "true"
        to = state(False)
        c.to, c.frm, ft = to[:2], [], "init"
        if c.n <= 3 and r.random() < .4:
            f = state(True)
            c.frm, ft = f[:2], f[2]
        for q in (c.to, c.frm):
            if q:
                for cj in q[1]:
                    for i, j, s, v in cj:
                        for x in (i, j):
                            if x:
                                c.max[x - 1] = max(c.max[x - 1], abs(v))
        c.q = "reachability: %s @ %s -> %s" % (qtext(t), ft, to[2])
        c.tree = t
        cs.append(c)
    return cs


def quoless(t):
    return "//" not in ops(t)


def rspec(c, **kw):
    return c.spec(**{"from": c.frm, "to": c.to, "bound": -1, **kw})


def v04(rep, tier, d):
    cnt = collections.Counter()
    for b, n in batches(tier, 1500, 600, 750):
        g = Gen(seed("V04", b))
        cs = reachabilities(g, n)
        want = model(rep, d, "Reach", "runs to the target", [rspec(c) for c in cs], invs=("Inside",))
        out = ask(rep, d, cs, g.r, reduce=lambda c: c.id % 2 == 1)
        for k, (c, o) in enumerate(zip(cs, out)):
            a, w = o[0], bool(want[k])
            if a["r"] == "model":
                cnt["refused"] += 1
                continue
            cnt[a["r"]] += 1
            if a["r"] not in ("path", "unreachable"):
                viol(rep, "no verdict", c, a, w)
            elif (a["r"] == "path") != w:
                viol(rep, "wrong verdict", c, a, w)
            if k % 90 == 0:
                rep.sample({"query": c.q, "answer": a["r"], "components": [show(x) for x in c.comps]})
    rep.extra["verdicts"] = dict(cnt)
    rep.validated(cnt["path"] + cnt["unreachable"], "reachability verdicts of the engine compared with the specification")


def strip(x):
    """A reported location without the components' names."""
    if x is None or x[0] in ("u", "e", "any"):
        return x
    return ["c", x[1]] if x[0] == "c" else ["n", strip(x[1]), strip(x[2])]


def zone(c, z):
    """A reported zone as a constraint of the specification; None when a clock is not known."""
    num = {}
    base = 0
    # clocks are numbered instance by instance, a quotient's after its operands
    def walk(t, k):
        nonlocal base
        if t[0] == "c":
            for x in c.by[t[1]]["clocks"]:
                base += 1
                num[(k[0], x)] = base
            k[0] += 1
            return
        walk(t[1], k)
        walk(t[2], k)
        if t[0] == "//" and "q" not in num:
            base += 1
            num["q"] = base
    k = [0]
    for t in c.trees:
        walk(t, k)
    def cl(x):
        if x == 0:
            return 0
        if x[0] == "sys":
            return num.get("q")
        return num.get((x[0], x[1]))
    out = []
    for cj in z:
        row = []
        for x, y, s, v in cj:
            i, j = cl(x), cl(y)
            if i is None or j is None:
                return None
            row.append([i, j, s, v])
        out.append(row)
    return out


def recorded(c, a):
    """The reported path as the specification reads it, or the first thing wrong with its form."""
    return decisions(c, a["path"])


def decisions(c, ds):
    p = []
    for de in ds:
        es = []
        for ci, eid, cn in de["edges"]:
            if ci is None or ci >= len(c.inst) or cn != c.order[ci]:
                return None, "an edge of no component: %s" % [ci, eid, cn]
            ids = [e["id"] for e in c.inst[ci]["edges"]]
            es.append([ci + 1, ids.index(eid) + 1 if eid in ids else 0])
        if not de["source"] or not de["destination"]:
            return None, "a decision without states"
        zs, zd = zone(c, de["source"]["zone"]), zone(c, de["destination"]["zone"])
        if zs is None or zd is None:
            return None, "a zone with a clock of no component"
        p.append({"a": de["action"], "edges": es, "src": strip(de["source"]["loc"]), "dst": strip(de["destination"]["loc"]),
                  "zs": zs, "zd": zd})
    return p, None


def v05(rep, tier, d):
    cnt = collections.Counter()
    for b, n in batches(tier, 1600, 600, 800):
        g = Gen(seed("V05", b))
        cs = reachabilities(g, n)
        out = ask(rep, d, cs, g.r)
        ps, pk = [], []
        for k, (c, o) in enumerate(zip(cs, out)):
            a = o[0]
            if a["r"] != "path":
                continue
            cnt[len(a["path"])] += 1
            p, err = recorded(c, a)
            if err:
                viol(rep, err, c, a, "a run to the target")
                continue
            pk.append(k)
            ps.append(rspec(c, path=p, bound=len(p) - 1))
            if k % 90 == 0:
                rep.sample({"query": c.q, "path": p, "components": [show(x) for x in c.comps]})
        bad = model(rep, d, "Path", "reported paths followed", ps)
        for j, x in bad.items():
            viol(rep, "the reported path is not a run to the target: " + x[0]["why"], cs[pk[j]], out[pk[j]][0], x)
        few = [j for j, p in enumerate(ps) if p["bound"] >= 0]
        short = model(rep, d, "Reach", "shorter runs to the target", [ps[j] for j in few], invs=("Inside",))
        for j, x in short.items():
            viol(rep, "not the fewest transitions", cs[pk[few[j]]], out[pk[few[j]]][0], x[0])
    rep.extra["path lengths"] = {str(k): v for k, v in sorted(cnt.items())}
    rep.validated(sum(cnt.values()), "reported paths replayed in the specification")


# ------------------------------------------------------------------ S04
def simulated(g, n):
    r = g.r
    cs = []
    while len(cs) < n:
        A = g.comp("A", ["a"], ["b"] if r.random() < .5 else ["b", "d"], nclk=r.choice([0, 1, 1, 2]), nloc=r.choice([None, 4]), p_edge=r.choice([.35, .6]),
                   det=r.random() < .5, consistent=r.random() < .5)
        B = g.comp("B", ["b"], ["c"], nclk=r.randint(0, 1), det=r.random() < .7, consistent=r.random() < .5)
        M = g.mutate(A, "M", r.randint(1, 2))
        a, b, m = leaf("A"), leaf("B"), leaf("M")
        t = r.choice([a, a, par(a, b), par(a, b), conj(a, m), quo(a, b), quo(a, m), par(conj(a, m), b)])
        c = mk(len(cs), [A, B, M], [t], 3 if r.random() < .25 else 2)
        if c is None:
            continue
        c.frm, c.to, c.q = [], [[0] * len(leaves(t)), TRUE], "simulation of " + qtext(t)
        c.choices = [r.randrange(1000) for _ in range(r.choice([2, 4, 6]))]
        cs.append(c)
    return cs


def simulation(c, o):
    """The recorded simulation as the specification reads it, or the first thing wrong with its form."""
    steps = []
    for s in o["steps"]:
        ds, err = decisions(c, s["decisions"])
        if err:
            return None, err
        if not s["full"]:
            return None, "a response without a state"
        z = zone(c, s["full"]["zone"])
        if z is None:
            return None, "a zone with a clock of no component"
        steps.append({"loc": strip(s["full"]["loc"]), "zone": z, "ds": ds, "choice": s.get("choice", -1) + 1})
    return steps, None


def s04(rep, tier, d):
    cnt = collections.Counter()
    for b, n in batches(tier, 600, 600, 600):
        g = Gen(seed("S04", b))
        cs = simulated(g, n)
        out = drive([{"id": k, "op": "sim", "comps": [comp_json(x, g.r) for x in c.comps], "composition": qtext(c.trees[0]), "choices": c.choices}
                     for k, c in enumerate(cs)], d)
        ps, pk = [], []
        for k, (c, o) in enumerate(zip(cs, out)):
            if "end" in o:
                if not o["steps"] and "Inconsistent(" in o["end"]:
                    cnt["refused"] += 1
                    continue
                viol(rep, "the simulation ends without an answer", c, o["end"], c.choices)
                continue
            st, err = simulation(c, o)
            if err:
                viol(rep, err, c, o, c.choices)
                continue
            cnt["responses"] += len(st)
            cnt["decisions"] += sum(len(x["ds"]) for x in st)
            pk.append(k)
            ps.append(rspec(c, steps=st))
            if k % 90 == 0:
                rep.sample({"system": c.q, "first response": st[0], "components": [show(x) for x in c.comps]})
        bad = model(rep, d, "Sim", "recorded simulations followed", ps)
        for j, x in bad.items():
            viol(rep, "simulation: " + x[0]["why"][0], cs[pk[j]], x[0]["why"][1:], {"response": x[0]["j"], "recorded": ps[j]["steps"][:x[0]["j"]]})
        cnt["simulations"] += len(ps)
    rep.extra["simulations"] = dict(cnt)
    rep.validated(cnt["responses"], "responses of recorded simulations followed in the specification")


# ------------------------------------------------------------------ V06
def v06(rep, tier, d):
    cnt = collections.Counter()
    for b, n in batches(tier, 350, 600, 350):
        g = Gen(seed("V06", b))
        # refinements
        cs = refinements(g, n)
        out = ask(rep, d, cs, g.r)
        ps, pk = [], []
        for k, (c, o) in enumerate(zip(cs, out)):
            a = o[0]
            if kind(a) not in ("refinement:match", "refinement:delay"):
                blame_child(rep, c, a, cnt)
                continue
            at = a["f"]["at"]
            loc = at["state"]["loc"] if at and at["state"] else None
            if not loc or loc[0] != "n":
                viol(rep, "the report has no pair of locations", c, a, "")
                continue
            z = zone(c, at["state"]["zone"])
            if z is None:
                viol(rep, "the report's zone has a clock of no component", c, a, "")
                continue
            pk.append(k)
            ps.append(c.spec(report={"why": a["f"]["why"], "l": strip(loc[1]), "r": strip(loc[2]), "a": at["action"], "z": z}))
            cnt[kind(a)] += 1
        ok = model(rep, d, "Blame", "pairs that a report of a failing refinement applies to", ps, spec="BSpec", invs=())
        for j, k in enumerate(pk):
            if not ok[j]:
                viol(rep, "no reachable pair of states fails as the report says", cs[k], out[k][0], ps[j]["report"])
            elif j % 50 == 0:
                rep.sample({"query": cs[k].q, "report": ps[j]["report"], "components": [show(x) for x in cs[k].comps]})
        # consistency
        cs = []
        while len(cs) < n:
            c = mk(len(cs), [resetting(g, "A", ["a", "c"], ["b", "d"])], [leaf("A")])
            c.q = "consistency: A"
            cs.append(c)
        want = model(rep, d, "Consist", "states that cannot be kept", [c.spec() for c in cs], invs=CONS["invs"])
        out = ask(rep, d, cs, g.r)
        for k, (c, o) in enumerate(zip(cs, out)):
            a, w = o[0], want[k][0]
            if kind(a) == "consistency:state":
                cnt[kind(a)] += 1
                if strip(a["f"]["state"]["loc"]) not in w["lost"]:
                    viol(rep, "the reported location can be kept consistent", c, a, w)
            elif kind(a) == "consistency:noinit" and w["n"] > 0:
                viol(rep, "reported to have no initial state", c, a, w)
        # determinism
        cs = ambiguous(g, n)
        amb = ambiguity(rep, d, cs)
        out = ask(rep, d, cs, g.r)
        for k, (c, o) in enumerate(zip(cs, out)):
            a = o[0]
            if a["r"] == "determinism":
                cnt["determinism"] += 1
                at = a["at"]
                l = at["state"]["loc"] if at and at["state"] else None
                if not l or l[0] != "c" or (l[2], l[1], at["action"]) not in amb[k][1]:
                    viol(rep, "the reported action is not ambiguous in the reported location", c, a, sorted(amb[k][1]))
    rep.extra["reports"] = dict(cnt)
    rep.validated(sum(cnt.values()), "failure reports of the engine looked up in the specification")


def blame_child(rep, c, a, cnt):
    """A child's nondeterminism, by the component's own edges: two edges of that action there."""
    f = a.get("f")
    if not isinstance(f, dict) or not f.get("child") or isinstance(f["child"], str):
        return
    f = f["child"].get("f", {})
    if f.get("why") != "determinism":
        return
    at = f["det"]["at"]
    l = at["state"]["loc"]
    if l[0] != "c":
        return
    x = c.by.get(l[2])
    cnt["child determinism"] += 1
    if not x or sum(1 for e in x["edges"] if x["locs"][e["s"]]["id"] == l[1] and e["a"] == at["action"]) < 2:
        viol(rep, "the reported action has not two edges in the reported location", c, a, "")


# ------------------------------------------------------------------ O01 - O03: the operators
def initial(c, t):
    if t["op"] == "c":
        q = c.inst[t["k"] - 1]
        return ["c", q["names"][q["init"] - 1]]
    return ["n", initial(c, t["l"]), initial(c, t["r"])]


def points(rep, d, cs, module, what, **kw):
    """The moves of every case's system according to the specification, as the driver reads them."""
    got = model(rep, d, module, what, [c.spec(**kw) for c in cs],
                invs=("Emit", "Inside") if module == "Table" else ("Emit", "InputEnabled"))
    return [[[x["l"], x["v"], x["ok"], x["m"]] for x in got[k]] for k in range(len(cs))]


def tables(rep, d, cs, pts, rng, what):
    dc = []
    for k, c in enumerate(cs):
        c.files = [comp_json(x, rng) for x in c.comps]
        dc.append({"id": k, "op": "table", "comps": c.files, "system": c.text, "scale": c.n + 1, "points": pts[k],
                   "inputs": sorted(c.inputs(c.sys[0])), "outputs": sorted(c.outputs(c.sys[0])),
                   "init": initial(c, c.sys[0])})
    n = 0
    for k, (c, o) in enumerate(zip(cs, drive(dc, d))):
        c.q = "system " + c.text
        if o.get("refused"):
            continue
        if o.get("panic"):
            viol(rep, "the engine crashed", c, o, "")
        elif o["bad"]:
            viol(rep, "the engine's moves differ", c, o["bad"], "")
        else:
            n += o["n"]
            if k % 60 == 0:
                rep.sample({"system": c.text, "components": [show(x) for x in c.comps], "points": pts[k][:2]})
    rep.validated(n, what)


def operands(g):
    r = g.r
    special = dict(p_uni=.2, p_inc=.1)
    A = g.comp("A", ["a"], ["b"] if r.random() < .5 else ["b", "d"], nclk=r.randint(0, 2), det=r.random() < .7, consistent=False, **special)
    B = g.comp("B", ["b"], ["c"], nclk=r.randint(0, 1), consistent=False, **special)
    C = g.comp("C", ["a", "c"], ["e"], nclk=r.randint(0, 1), nloc=2, consistent=False)
    M = g.mutate(A, "M", r.randint(1, 2))
    return [A, B, C, M]


def clean_operands(g):
    """Deterministic, consistent ones: what conjunctions and quotients take."""
    r = g.r
    A = g.comp("A", ["a"], ["b"] if r.random() < .5 else ["b", "d"], nclk=r.randint(0, 2), p_uni=.2)
    B = g.comp("B", ["b"], ["c"], nclk=r.randint(0, 1), p_uni=.2)
    C = g.comp("C", ["a", "c"], ["e"], nclk=r.randint(0, 1), nloc=2)
    M = g.mutate(A, "M", r.randint(1, 2))
    return [A, B, C, M]


def shapes(op, g):
    a, b, c, m = [leaf(x) for x in "ABCM"]
    r = g.r
    if op == "||":
        return r.choice([par(a, b), par(b, a), par(a, c), par(b, c), par(par(a, b), c), par(c, par(b, a)), par(conj(a, m), b),
                         par(b, conj(m, a)), par(quo(a, b), b)])
    if op == "&&":
        return r.choice([conj(a, m), conj(m, a), conj(a, a), conj(conj(a, m), a), conj(par(a, b), par(m, b)),
                         conj(a, conj(m, a)), conj(par(b, a), par(m, b))])
    return r.choice([quo(a, b), quo(a, m), quo(b, a), quo(par(a, b), b), quo(par(a, b), a), quo(a, a), quo(c, b), quo(a, c),
                     quo(par(a, c), c), quo(conj(a, m), a), quo(quo(a, b), b), quo(a, par(b, c)), quo(par(a, b), quo(a, c))])


def operator(rep, prop, op, tier, d, quick=330):
    for b, n in batches(tier, quick, 500, quick):
        g = Gen(seed(prop, b), maxc=2)
        g.diag = .25
        cs = []
        while len(cs) < n:
            comps = operands(g) if op == "||" else clean_operands(g)
            t = shapes(op, g)
            c = mk(len(cs), comps, [t], 4)
            if c is None:
                continue
            c.text = qtext(t)
            cs.append(c)
        pts = points(rep, d, cs, "Table", "moves of generated systems")
        tables(rep, d, cs, pts, g.r, "moves of the engine's systems compared at reachable points")


def o01(rep, tier, d):
    operator(rep, "O01", "||", tier, d, 1200)


def o02(rep, tier, d):
    operator(rep, "O02", "&&", tier, d, 1500)


def o03(rep, tier, d):
    operator(rep, "O03", "//", tier, d, 800)
    adjunction(rep, tier, d)


# X <= T \\ S exactly when S || X <= T
def adjunction(rep, tier, d):
    cnt = collections.Counter()
    for b, n in batches(tier, 250, 300, 250):
        g = Gen(seed("O03a", b))
        r = g.r
        cs = []
        while len(cs) < 2 * n:
            small = dict(nclk=r.randint(0, 1), nloc=r.randint(1, 2))
            S = g.comp("S", ["a"], ["b"], **small)
            X = g.comp("X", ["a", "b"] if r.random() < .5 else ["b"], ["c"], nclk=r.randint(0, 1), nloc=r.randint(1, 2))
            if r.random() < .5:
                T = g.comp("T", ["a"], ["b", "c"], nclk=r.randint(0, 2), nloc=r.randint(1, 2), p_edge=.8)
                tt, comps = leaf("T"), [S, X, T]
            else:
                Y = g.mutate(X, "Y", 1)
                Z = g.mutate(S, "Z", 1)
                tt, comps = par(r.choice([leaf("S"), leaf("Z")]), leaf("Y")), [S, X, Y, Z]
            two = [mk(len(cs) + j, comps, p) for j, p in
                   enumerate([(leaf("X"), quo(tt, leaf("S"))), (par(leaf("S"), leaf("X")), tt)])]
            if None in two:
                continue
            for c in two:
                c.q = "refinement: %s <= %s" % tuple(qtext(t) for t in c.trees)
            cs += two
        out = ask(rep, d, cs, r)
        bad = model(rep, d, "Refine", "both sides of the quotient's law", [c.spec() for c in cs], invs=("Inside",))
        for k in range(0, 2 * n, 2):
            a1, a2 = out[k][0], out[k + 1][0]
            if comparable(cs[k]) != comparable(cs[k + 1]) or not comparable(cs[k]):
                cnt["not comparable"] += 1
                continue
            if bool(bad[k]) != bool(bad[k + 1]):
                raise ToolError("the specification's quotient breaks the law: %s" % json.dumps(
                    {"query": cs[k].q, "components": [show(x) for x in cs[k].comps]}))
            if kind(a1) in ("model:child", "refinement:child") or kind(a2) in ("model:child", "refinement:child"):
                cnt["refused"] += 1
                continue
            cnt["law " + kind(a1)] += 1
            if (kind(a1) == "ok") != (kind(a2) == "ok"):
                viol(rep, "X <= T \\\\ S and S || X <= T have different answers", cs[k], [a1, a2], "holds" if not bad[k] else "fails")
            elif (kind(a1) == "ok") != (not bad[k]):
                viol(rep, "wrong verdict about a quotient", cs[k], a1, "holds" if not bad[k] else "fails")
    rep.extra["law"] = dict(cnt)
    rep.validated(sum(v for k, v in cnt.items() if k.startswith("law")), "pairs of answers of the engine on the quotient's law")


# ------------------------------------------------------------------ O04
def trivial(g, name, acts):
    """One or two locations without clocks; each action goes in at most one way from each."""
    r = g.r
    nloc = r.choice([1, 1, 2])
    c = {"name": name, "clocks": [], "edges": [],
         "locs": [{"id": "L%d" % i, "inv": TRUE, "type": "INITIAL" if i == 0 else "NORMAL"} for i in range(nloc)]}
    for a in acts:
        k = r.random()
        for io in ("I",) if k < .48 else ("O",) if k < .96 else ("I", "O"):
            for s in range(nloc):
                if s == 0 or r.random() < .5:
                    c["edges"].append({"id": "E%d" % len(c["edges"]), "s": s, "t": r.randrange(nloc), "a": a, "io": io,
                                       "g": TRUE, "u": []})
    return c


def tree(g, names, n):
    if n == 1:
        return leaf(g.r.choice(names))
    k = g.r.randint(1, n - 1)
    return (g.r.choice(["||", "&&", "//"]), tree(g, names, k), tree(g, names, n - k))


def o04(rep, tier, d):
    cnt = collections.Counter()
    for b, n in batches(tier, 4000, 400, 4000):
        g = Gen(seed("O04", b))
        r = g.r
        cs = []
        while len(cs) < n:
            pool = r.choice(["abcd", "abcdef", "abc"])
            names = "ABCD"[:r.randint(1, 4)]
            comps = [trivial(g, x, [a for a in pool if r.random() < r.choice([.3, .5])]) for x in names]
            if r.random() < .3 and len(comps) > 1:
                comps[1] = copy.deepcopy(comps[0])
                comps[1]["name"] = names[1]
            two = r.random() < .4
            trees = [tree(g, names, r.randint(1, 3)) for _ in range(2 if two else 1)]
            used = {x for t in trees for x in leaves(t)}
            c = Case(len(cs), comps, trees)
            c.comps = [x for x in comps if x["name"] in used]
            c.order = [x for t in trees for x in leaves(t)]
            ts = [qtext(t) for t in trees]
            c.q = "refinement: %s <= %s" % tuple(ts) if two else r.choice(
                ["determinism: %s", "consistency: %s", "reachability: %s @ init -> true"]) % ts[0]
            c.two = two
            cs.append(c)
        want = model(rep, d, "Refuse", "reasons to refuse generated systems", [c.spec() for c in cs], invs=("Emit", "Sound"))
        out = ask(rep, d, cs, r)
        for k, (c, o) in enumerate(zip(cs, out)):
            a, w = o[0], want[k][0]
            kd = kind(a)
            expect = "model:actions" if w["m"] else "refinement:actions" if w["q"] else "answer"
            cnt[expect] += 1
            if kd in CRASH:
                viol(rep, "no answer", c, a, w)
            elif expect == "answer":
                if kd in ("model:actions", "refinement:actions"):
                    viol(rep, "refused for its actions although they fit", c, a, w)
            elif kd != expect:
                viol(rep, "not refused for its actions", c, a, w)
            else:
                f = a["f"]["actions"]
                got = [{0: "subset", 1: "disjoint"}.get(f["kind"])] + [
                    [re.findall(r"\w+", x["system"]), x["is_input"], x["actions"]] for x in f["sets"]]
                reasons = [[q[0]] + [[[c.order[j - 1] for j in x[0]], x[1], sorted(x[2])] for x in q[1:]]
                           for q in w["m"] or w["q"]]
                if not any(same(got, q) for q in reasons):
                    viol(rep, "the refusal does not name the actions that do not fit", c, a, reasons)
            if k % 400 == 0:
                rep.sample({"query": c.q, "reasons": w, "answer": kd})
    rep.extra["answers"] = dict(cnt)
    rep.validated(sum(cnt.values()), "refusals of the engine compared with the specification")


def same(x, y):
    """Reports agree; the side of a set without actions may be either."""
    if x[0] != y[0] or len(x) != len(y):
        return False
    def eq(p, q):
        return p[0] == q[0] and p[2] == q[2] and (p[1] == q[1] or not p[2])
    if all(eq(p, q) for p, q in zip(x[1:], y[1:])):
        return True
    return x[0] == "disjoint" and all(eq(p, q) for p, q in zip(x[1:], y[:0:-1]))


# ------------------------------------------------------------------ O05
def o05(rep, tier, d):
    cnt = collections.Counter()
    for b, n in batches(tier, 200, 600, 200):
        g = Gen(seed("O05", b))
        r = g.r
        fams, cs = [], []
        while len(fams) < n:
            A = g.comp("A", ["a"], ["b"] if r.random() < .5 else ["b", "d"], nclk=r.randint(0, 2), nloc=r.choice([1, 2, 2, 3]),
                       p_uni=.1)
            M, P = g.mutate(A, "M", 1), g.mutate(A, "P", 1)
            if r.random() < .4:
                P = g.mutate(M, "P", 1)
            B = g.comp("B", ["b"], ["c"], nclk=r.randint(0, 1), nloc=r.randint(1, 2))
            comps = [A, M, P, B]
            a, m, p, x = [leaf(q) for q in "AMPB"]
            k = r.random()
            if k < .35:
                objs = [a, m, p]
            elif k < .7:
                objs = [a, m, p, conj(a, m)]
            else:
                objs = [a, m, par(a, x), par(m, x), par(x, m)] + ([quo(par(a, x), x)] if r.random() < .3 else [])
            qs, idx = [], {}
            for s in range(len(objs)):
                for t in range(len(objs)):
                    c = mk(len(cs) + len(qs), comps, (objs[s], objs[t]))
                    if c is None or c.n > 5 or not comparable(c):
                        continue
                    c.q = "refinement: %s <= %s" % (qtext(objs[s]), qtext(objs[t]))
                    idx[s, t] = len(cs) + len(qs)
                    qs.append(c)
            if len(qs) < 4:
                continue
            cs += qs
            fams.append((objs, idx))
        out = ask(rep, d, cs, r, reduce=lambda c: c.id % 2 == 1)
        bad = model(rep, d, "Refine", "refinement among generated families", [c.spec() for c in cs], invs=("Inside",))
        def code(j):
            k = kind(out[j][0])
            return True if k == "ok" else False if k in ("refinement:match", "refinement:delay", "refinement:actions") else None
        for j, c in enumerate(cs):
            if kind(out[j][0]) in CRASH:
                viol(rep, "no verdict", c, out[j][0], "")
        for objs, idx in fams:
            for side, v in (("specification", lambda j: not bad[j]), ("engine", code)):
                for name, qs in laws(objs, idx, v):
                    if side == "engine":
                        if any(code(j) is None for j in qs):
                            continue
                        viol(rep, "broken law: " + name, cs[qs[0]], [[cs[j].q, out[j][0]] for j in qs], [[cs[j].q, not bad[j]] for j in qs])
                    elif all(code(j) is not None for j in qs):
                        raise ToolError("the specification breaks a law: %s %s" % (
                            name, json.dumps([[cs[j].q, not bad[j]] for j in qs] + [show(x) for x in cs[qs[0]].comps])))
            cnt["families"] += 1
            cnt["reflexive"] += sum(1 for s, t in idx if s == t)
            cnt["transitive"] += sum(1 for s, t in idx for u in range(len(objs)) if (t, u) in idx and (s, u) in idx
                                     and code(idx[s, t]) and code(idx[t, u]))
    rep.extra["laws"] = dict(cnt)
    rep.validated(cnt["reflexive"] + cnt["transitive"], "instances of the laws tried on the engine's verdicts")


def laws(objs, idx, v):
    """The broken laws, each with the numbers of the queries involved."""
    n = len(objs)
    R = range(n)
    def q(s, t):
        return idx.get((s, t))
    for s in R:
        if q(s, s) is not None and v(q(s, s)) is False:
            yield "reflexive", [q(s, s)]
        for t in R:
            for u in R:
                j = [q(s, t), q(t, u), q(s, u)]
                if None not in j and v(j[0]) and v(j[1]) and v(j[2]) is False:
                    yield "transitive", j
    for k, o in enumerate(objs):
        if o[0] == "&&" and o[1] in objs and o[2] in objs:
            l, m = objs.index(o[1]), objs.index(o[2])
            for x in (l, m):
                if q(k, x) is not None and v(q(k, x)) is False:
                    yield "a conjunction refines its operands", [q(k, x)]
            for x in R:
                j = [q(x, l), q(x, m), q(x, k)]
                if None not in j and v(j[0]) and v(j[1]) and v(j[2]) is False:
                    yield "a conjunction is refined by what refines both operands", j
        if o[0] == "||":
            for k2, o2 in enumerate(objs):
                if o2[0] != "||" or k == k2:
                    continue
                if set(map(str, o[1:])) == set(map(str, o2[1:])):
                    if q(k, k2) is not None and v(q(k, k2)) is False:
                        yield "composition does not depend on the order", [q(k, k2)]
                for x in o[1:]:
                    if x in o2[1:] and leaf("B") == x and o[1] == o2[1] or o[2] == o2[2]:
                        y, y2 = [next(z for z in w[1:] if z != x) for w in (o, o2)]
                        if y in objs and y2 in objs:
                            j = [q(objs.index(y), objs.index(y2)), q(k, k2)]
                            if None not in j and v(j[0]) and v(j[1]) is False:
                                yield "composition preserves refinement", j


# ------------------------------------------------------------------ M01: input-enabling
def raw(g):
    """A component with every kind of constraint: clock differences, alternatives, repeated
    assignments, overlapping and missing edges."""
    r = g.r
    n = r.choice([0, 1, 1, 2, 2, 2])
    c = g.comp("A", ["a", "c"], ["b"], nclk=n, nloc=r.randint(1, 3), det=r.random() < .5, consistent=False,
               p_edge=r.choice([.4, .8]))
    def diag():
        i, j = r.sample([1, 2], 2)
        return [i, j, r.random() < .5, r.randint(-3, 3)]
    def spice(x):
        if x is None or r.random() < .5:
            return x
        x = copy.deepcopy(x or [[]])
        if n == 2 and r.random() < .7:
            r.choice(x).append(diag())
        elif n and r.random() < .5:
            x.append([g.atom(r.randint(1, n))])
        return x
    for e in c["edges"]:
        if e["a"] != "*":
            e["g"] = spice(e["g"])
            if n and r.random() < .15:
                e["u"] = e["u"] + [[r.randint(1, n), r.randint(0, 3)]]
    for l in c["locs"]:
        if l["type"] in ("NORMAL", "INITIAL") and n:
            l["inv"] = spice(l["inv"])
    return c


def m01(rep, tier, d):
    for b, n in batches(tier, 220, 600, 220):
        g = Gen(seed("M01", b))
        cs = []
        while len(cs) < n:
            c = mk(len(cs), [raw(g)], [leaf("A")])
            c.text = "A"
            cs.append(c)
        pts = points(rep, d, cs, "Grid", "moves of generated components everywhere on a grid", top=3)
        tables(rep, d, cs, pts, g.r, "points at which the moves of input-enabled components were compared")


# ------------------------------------------------------------------ M04: clock reduction
def redundant(g, c, mirror=True, only=None):
    """Adds a clock the behaviour does not depend on, in one of several ways."""
    r = g.r
    c = copy.deepcopy(c)
    n = len(c["clocks"])
    if n > 2 and not only:
        return c
    c["clocks"] = c["clocks"] + [["z", "w", "u"][sum(1 for k in c["clocks"] if k in "zwu")]]
    z = n + 1
    way = "mirror" if only else r.choice(["unused", "trivial", "apart", "reset"] + ["mirror"] * (2 * mirror))
    def swap(x):
        for cj in x or []:
            for a in cj:
                for p in (0, 1):
                    if a[p] == k and r.random() < .5:
                        a[p] = z
    def double(x):
        for cj in x or []:
            cj += [[z if q == k else q for q in a[:2]] + a[2:] for a in cj if k in a[:2] and r.random() < .5]
    if way == "mirror" and n:
        # Determinism is judged location by location, without the equality of the clocks: the
        # copy only stands in where no two edges with the same action are compared.
        k = only or r.randint(1, n)
        group = collections.Counter((e["s"], e["a"]) for e in c["edges"])
        for e in c["edges"]:
            e["u"] = e["u"] + [[z, v] for i, v in e["u"] if i == k]
            double(e["g"])
            if group[e["s"], e["a"]] == 1:
                swap(e["g"])
        for j, l in enumerate(c["locs"]):
            double(l["inv"])
            if all(group[e["s"], e["a"]] == 1 for e in c["edges"] if e["t"] == j):
                swap(l["inv"])
    elif way == "trivial":
        for e in c["edges"]:
            if e["a"] != "*" and r.random() < .4:
                e["g"] = [cj + [ge(z, 0)] for cj in (e["g"] or [[]])]
        for l in c["locs"]:
            if l["type"] in ("NORMAL", "INITIAL") and r.random() < .3:
                l["inv"] = [cj + [ge(z, 0)] for cj in (l["inv"] or [[]])]
    elif way == "apart":
        c["locs"].append({"id": "L%d" % (10 + len(c["locs"])), "inv": [[le(z, 2)]], "type": "NORMAL"})
        for a in actions_of(c, "I"):
            c["edges"].append({"id": "", "s": len(c["locs"]) - 1, "t": r.randrange(len(c["locs"])), "a": a, "io": "I",
                               "g": [[g.atom(z)]], "u": []})
        for a in actions_of(c, "O")[:1]:
            c["edges"].append({"id": "", "s": len(c["locs"]) - 1, "t": 0, "a": a, "io": "O", "g": [[ge(z, 1)]], "u": []})
    if way in ("trivial", "apart", "reset") or r.random() < .3 and way != "mirror":
        for e in c["edges"]:
            if e["a"] != "*" and r.random() < .4:
                e["u"] = e["u"] + [[z, r.choice([0, 0, 1, 2])]]
    for i, e in enumerate(c["edges"]):
        e["id"] = "E%d" % i
    return c


def m04(rep, tier, d):
    cnt = collections.Counter()
    comps = unreached_component()
    c = mk(0, comps, [par(leaf("A"), leaf("N"))])
    c.qs = [["determinism: A || N", False], ["determinism: A || N", True]]
    off, on = ask(rep, d, [c], Gen(0).r)[0]
    if kind(off) != kind(on):
        if "unreached-component" in known("M04"):
            rep.known.append("unreached-component: " + known("M04")["unreached-component"])
        else:
            viol(rep, "another answer with clock reduction", c, [off, on], "the same")
    for b, n in batches(tier, 10000, 600, 5000):
        g = Gen(seed("M04", b))
        r = g.r
        cs = []
        while len(cs) < n:
            comps = family(g)
            for k, c in enumerate(comps):
                if len(c["clocks"]) == 2 and r.random() < .5:
                    # two groups of clocks that are equal, set to the same value now and then
                    for e in c["edges"]:
                        if r.random() < .4:
                            e["u"] = [[1, 0], [2, 0]]
                    comps[k] = redundant(g, redundant(g, c, only=1), only=2)
                    continue
                for _ in range(r.choice([0, 1, 1, 2])):
                    comps[k] = redundant(g, comps[k])
            p = pair(g)
            q = r.choice(["refinement", "refinement", "refinement", "consistency", "determinism"])
            exact = False
            if q != "refinement" and r.random() < .7:
                A = resetting(g, "A", ["a", "c"], ["b", "d"]) if q == "consistency" else \
                    g.comp("A", ["a", "c"], ["b", "d"], nclk=r.choice([1, 2, 2]), det=r.random() < .4, consistent=False)
                if len(A["clocks"]) == 2 and r.random() < .7:
                    # two groups of clocks that are equal, set to the same value now and then
                    for e in A["edges"]:
                        if r.random() < .3:
                            e["u"] = [[1, 0], [2, 0]]
                    A = redundant(g, redundant(g, A, only=1), only=2)
                else:
                    A = redundant(g, A, mirror=q == "consistency")
                comps, p = [A], [leaf("A")]
                exact = True
            ts = p if q == "refinement" else p[:1]
            c = mk(len(cs), comps, ts, 7)
            if c is None:
                continue
            c.clean = all(x.get("clean") for x in c.comps) and not any("&&" in ops(t) for t in ts)
            c.kind, c.exact, c.q = q, exact, q + ": " + " <= ".join(qtext(t) for t in ts)
            c.qs = [[c.q, False], [c.q, True]]
            cs.append(c)
        out = ask(rep, d, cs, r)
        differ = []
        for c, (off, on) in zip(cs, out):
            ko, kn = [kind(a).split(":")[0] for a in (off, on)]
            cnt[c.kind + " " + ko] += 1
            if ko in CRASH:
                viol(rep, "no verdict", c, [off, on], "")
            elif ko != kn:
                # Components of a composed system are judged alone, beyond what the system
                # reaches (known finding "unreached-component"); the consistency of a component
                # that does not reset its clocks is judged by zones (V02's known findings).
                unclean = any(not c.by[x].get("clean") for a in (off, on) for x in blamed(a) if x in c.by)
                stuck = '"why": "state"' in json.dumps([off, on])
                if unclean and (ops(ts_of(c)) or stuck and not getattr(c, "exact", False)):
                    cnt["known findings"] += 1
                else:
                    differ.append((c, off, on))
        # Determinism is judged location by location: merging clocks that are always equal can
        # tell apart what is ambiguous in no state that can be reached.  Only then may it matter.
        names = [[x for x in {y for a in (off, on) for y in blamed(a)} if x in c.by] for c, off, on in differ]
        one = [Case(0, [c.by[x]], [leaf(x)]).spec(**{"from": [], "to": []}) for (c, off, on), xs in zip(differ, names) for x in xs]
        amb = model(rep, d, "Det", "reachable ambiguities where the answers differ", one) if one else {}
        j = 0
        for (c, off, on), xs in zip(differ, names):
            real = any(amb.get(j + k) for k in range(len(xs)))
            j += len(xs)
            if '"determinism"' in json.dumps(off) and on["r"] == "ok" and xs and not real:
                cnt["told apart by merging clocks"] += 1
            else:
                viol(rep, "another answer with clock reduction", c, [off, on], "the same")
        # what the answers must be
        ks = [k for k, c in enumerate(cs) if c.kind == "refinement" and c.n < 6][:400 if tier == "quick" else 4000]
        bad = model(rep, d, "Refine", "refinement of generated pairs with redundant clocks", [cs[k].spec() for k in ks], invs=("Inside",))
        for j, k in enumerate(ks):
            for a in out[k]:
                judge_refinement(rep, cs[k], a, bad[j])
    rep.extra["answers"] = dict(cnt)
    rep.validated(sum(cnt.values()), "queries asked with and without clock reduction")


def ts_of(c):
    return c.trees[0] if len(c.trees) == 1 else ("||", c.trees[0], c.trees[1]) if ops(c.trees[0]) | ops(c.trees[1]) else c.trees[0]


def blamed(a):
    if isinstance(a, dict):
        return ([a["system"]] if isinstance(a.get("system"), str) else []) + [y for x in a.values() for y in blamed(x)]
    return [y for x in a for y in blamed(x)] if isinstance(a, list) else []


def unreached_component():
    """N is nondeterministic in a place that A || N never reaches, for values of a clock that is
    therefore redundant."""
    A = hand("A", ["z"], {"L0": TRUE, "L1": TRUE}, [("L0", "I", "a", TRUE, [], "L0"), ("L1", "O", "b", TRUE, [], "L0")])
    N = hand("N", ["x"], {"L0": TRUE, "L1": TRUE}, [("L1", "O", "c", TRUE, [], "L0"), ("L0", "I", "b", TRUE, [], "L1"),
                                                   ("L1", "O", "c", [[gt(1, 3)]], [], "L0")])
    return [A, N]


CHECKS = {"M01": m01, "M04": m04, "V01": v01, "V02": v02, "V03": v03, "V04": v04, "V05": v05, "V06": v06,
          "S04": s04, "O01": o01, "O02": o02, "O03": o03, "O04": o04, "O05": o05}


def main(prop, tier):
    rep = Report(prop, tier)
    with Scratch() as d:
        build("drive")
        CHECKS[prop](rep, tier, d)
    return rep.finish()
