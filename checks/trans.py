"""The transformations (M02, M03): what the engine writes back is read and run in the specification."""
import collections, json
import gen, saved
from engine import *

NAMES = ["x", "y", "z", "x1", "x2", "y1", "x21"]


def named(g, comps):
    """Other names of the clocks, such as the ones that the engine may choose itself."""
    r = g.r
    for c in comps:
        n = len(c["clocks"])
        if r.random() < .5:
            c["clocks"] = r.sample(NAMES if r.random() < .8 else NAMES + ["quotient_xnew", "quotient_xnew1"], n)
    return comps


def combined(g, n):
    """Systems to save: (case, expression)."""
    r = g.r
    a, b, c, m = [leaf(x) for x in "ABCM"]
    cs = []
    while len(cs) < n:
        comps = clean_operands(g)
        if r.random() < .25:
            comps = [redundant(g, x, mirror=True) if r.random() < .6 else x for x in comps]
        named(g, comps)
        t = r.choice("ABCM") if r.random() < .15 else None
        t = leaf(t) if t else shapes(r.choice(["||", "&&", "//"]), g) if r.random() < .8 else r.choice(
            [quo(quo(par(a, b), b), quo(par(a, b), b)), par(quo(a, b), b), par(quo(par(a, c), c), b), quo(par(b, quo(a, b)), b),
             conj(quo(par(a, b), b), a), conj(quo(a, b), quo(m, b)), par(par(a, b), c), par(a, par(b, c)), conj(par(a, b), par(m, b))])
        k = mk(len(cs), comps, [t], 5)
        if k is None:
            continue
        k.tree, k.text = t, qtext(t)
        cs.append(k)
    return cs


def readable(rep, c, a, name=None):
    """The component in an answer, or None."""
    try:
        z = saved.component(a["component"], name)
    except (saved.Unreadable, KeyError, ValueError) as e:
        viol(rep, "the saved component cannot be read: %r" % e, c, a, "")
        return None
    if [l["type"] for l in z["locs"]].count("INITIAL") != 1:
        viol(rep, "the saved component has not one initial location", c, a, "")
        return None
    return z


def m03(rep, tier, d):
    cnt = collections.Counter()
    for b, n in batches(tier, 600, 500, 500):
        g = Gen(seed("M03", b), maxc=2)
        r = g.r
        cs = combined(g, n)
        for c in cs:
            c.q = "get-component: %s save-as Z" % c.text
        js = []
        for c, o in zip(cs, ask(rep, d, cs, r, reduce=lambda c: c.id % 2 == 1)):
            a = o[0]
            if kind(a) != "component":
                cnt["refused" if kind(a) == "model:child" else "failed"] += 1
                if kind(a) != "model:child" or not any("&&" in ops(t) or "//" in ops(t) for t in c.trees):
                    viol(rep, "no component", c, a, "")
                continue
            if a["component"].get("name") != "Z":
                viol(rep, "the saved component has another name", c, a, "Z")
                continue
            z = readable(rep, c, a)
            if z is None:
                continue
            s = Case(c.id, c.comps + [z], [c.tree, leaf("Z")])
            if s.n > 9:
                cnt["too large"] += 1
                continue
            s.c, s.a, s.comps, s.z = c, a, c.comps + [z], z
            js.append(s)
        bad = model(rep, d, "Same", "generated systems next to what was saved of them", [s.spec() for s in js], invs=("Started",))
        for k, s in enumerate(js):
            if any(x["z"] for x in bad[k]):
                cnt["ambiguous"] += 1
            elif bad[k]:
                viol(rep, "the saved component behaves otherwise", s.c, s.a["component"], bad[k][:3])
            else:
                cnt["same"] += 1
                if k % 60 == 0:
                    rep.sample({"query": s.c.q, "saved": show(s.z)})
        # Read back by the engine: its verdicts are those of the specification.
        js = [s for s in js if s.n < 7][:n // 2]
        back, dc = [], []
        for k, s in enumerate(js):
            two = [(s.c.tree, leaf("Z")), (leaf("Z"), s.c.tree)][r.randint(0, 1)]
            c = Case(k, s.comps, two)
            c.comps, c.clean, c.q = s.comps, False, "refinement: %s <= %s" % tuple(qtext(t) for t in two)
            c.files = [json.dumps(x) if isinstance(x, dict) else x for x in s.c.files + [s.a["component"]]]
            back.append(c)
            dc.append({"id": k, "op": "query", "comps": c.files, "queries": [[c.q, r.random() < .5]]})
        out = drive(dc, d)
        bad = model(rep, d, "Refine", "refinement between systems and what was saved of them", [c.spec() for c in back], invs=("Inside",))
        for k, c in enumerate(back):
            a = (out[k].get("answers") or [{"r": "panic", "panic": out[k].get("panic")}])[0]
            cnt["read back: " + judge_refinement(rep, c, a, bad[k])] += 1
    rep.extra["saved"] = dict(cnt)
    rep.validated(cnt["same"], "saved components compared with their systems")
    rep.validated(sum(v for k, v in cnt.items() if k.startswith("read")), "verdicts about saved components read back by the engine")


def duel(g):
    """A component in which outputs race with inputs that lead to an inconsistent location."""
    r = g.r
    n, k = r.choice([1, 1, 2]), r.randint(2, 3)
    locs = [{"id": "L%d" % i, "inv": [[le(r.randint(1, n), r.randint(1, g.maxc))]] if r.random() < .4 else TRUE, "type": "NORMAL"}
            for i in range(k)] + [{"id": "X", "inv": TRUE, "type": "INCONSISTENT"}]
    locs[0]["type"] = "INITIAL"
    c = {"name": "A", "clocks": ["x", "y"][:n], "locs": locs, "edges": []}
    def edge(s, io, a, gd, t):
        c["edges"].append({"id": "", "s": s, "t": t, "a": a, "io": io, "g": gd, "u": g.resets(n)})
    for s in range(k):
        for io, a, bad in (("I", "a", .8 if s else .2), ("O", "b", .1), ("O", "d", .1)):
            if r.random() < .2:
                continue
            if r.random() < .5:
                g1, g2 = g.split(n)
                edge(s, io, a, g1, k if r.random() < bad else r.randrange(k))
                if r.random() < .6:
                    edge(s, io, a, g2, k if r.random() < bad else r.randrange(k))
            else:
                edge(s, io, a, g.guard(n), k if r.random() < bad else r.randrange(k))
    r.shuffle(c["edges"])
    for i, e in enumerate(c["edges"]):
        e["id"] = "E%d" % i
    return c


def losing(g, n):
    """Systems of which something may have to be pruned: (case, expression)."""
    r = g.r
    a, b, c, m = [leaf(x) for x in "ABCM"]
    cs = []
    while len(cs) < n:
        k = r.random()
        lossy = lambda: g.comp("A", ["a"], ["b"] if r.random() < .4 else ["b", "d"], nclk=r.randint(0, 2), nloc=r.randint(2, 4),
                               p_uni=0 if r.random() < .7 else .2, p_inc=.9)
        if k < .25:
            comps, t = [duel(g)], a
        elif k < .4:
            comps, t = [lossy()], a
        elif k < .55:
            comps, t = [resetting(g, "A", ["a"], ["b", "d"])], a
            if r.random() < .8:
                comps[0]["locs"][-1].update(type="INCONSISTENT", inv=TRUE)
        elif k < .75:
            comps = clean_operands(g)
            comps[0] = r.choice([lossy(), duel(g)])
            comps[3] = g.mutate(comps[0], "M", r.randint(1, 2))
            t = r.choice([par(a, b), par(a, c), conj(a, m), par(conj(a, m), b), quo(a, b), quo(a, m)])
        else:
            comps, t = clean_operands(g), shapes("//", g)
        if r.random() < .2:
            comps = [redundant(g, x, mirror=True) if r.random() < .6 else x for x in comps]
        named(g, comps)
        q = mk(len(cs), comps, [t], 4)
        if q is None:
            continue
        q.tree, q.text = t, qtext(t)
        q.q = "prune: %s save-as Z" % q.text
        cs.append(q)
    return cs


def m02(rep, tier, d):
    cnt = collections.Counter()
    for b, n in batches(tier, 2000, 500, 1000):
        g = Gen(seed("M02", b), maxc=2)
        r = g.r
        cs = losing(g, n)
        for c in cs:
            red = r.random() < .4
            c.qs = [["consistency: " + c.text, red], [c.q, red]]
        what = model(rep, d, "Keep", "what generated systems can be kept from", [c.spec() for c in cs], spec="KSpec", invs=("KEmit", "Within"))
        # What cannot be kept from the start is refused anyhow.
        some = [k for k in range(len(cs)) if what[k][0]["kept"] or r.random() < .15]
        what, cs = [what[k] for k in some], [cs[k] for k in some]
        js = []
        for k, (c, o) in enumerate(zip(cs, ask(rep, d, cs, r))):
            w = what[k][0]
            free = len(w["avoid"]) == w["all"]
            a = o[-1]
            if len(o) != 2 or kind(a) in ("panic", "error", "none"):
                viol(rep, "no answer", c, o, "")
            elif o[0]["r"] != "ok":
                cnt["inconsistent"] += 1
                if kind(a) == "component":
                    viol(rep, "a system was pruned that is called inconsistent", c, o, "")
            elif not w["avoids"]:
                cnt["nothing to keep"] += 1
                if kind(a) == "component":
                    viol(rep, "a system was pruned that cannot avoid inconsistent locations", c, a, "")
            elif kind(a) != "component":
                cnt["refused"] += 1
                if w["kept"]:
                    viol(rep, "no component", c, a, "")
            else:
                z = readable(rep, c, a)
                if z is None:
                    continue
                if a["component"].get("name") != "Z":
                    viol(rep, "the pruned component has another name", c, a, "Z")
                s = Case(c.id, c.comps + [z], [c.tree, leaf("Z")])
                if s.n > 9:
                    cnt["too large"] += 1
                    continue
                s.max[:c.n] = c.max
                s.c, s.a, s.w, s.z, s.free = c, a, w, z, free
                js.append(s)
        bad = model(rep, d, "Prune", "generated systems next to what was left of them",
                    [s.spec(nt=s.c.n, keep=s.w["keep"], avoid=s.w["avoid"]) for s in js], invs=())
        for k, s in enumerate(js):
            if any(x["z"] for x in bad[k]):
                cnt["ambiguous"] += 1
            elif bad[k]:
                viol(rep, "the pruned component behaves otherwise", s.c, s.a["component"], bad[k][:3])
            else:
                cnt["whole" if s.free else "pruned"] += 1
                if not s.free and cnt["pruned"] % 12 == 1:
                    rep.sample({"query": s.c.q, "system": [show(x) for x in s.c.comps], "pruned": show(s.z)})
    rep.extra["systems"] = dict(cnt)
    rep.validated(cnt["whole"] + cnt["pruned"], "pruned systems compared with what they were pruned from")
    rep.validated(cnt["inconsistent"] + cnt["nothing to keep"], "refusals to prune")


CHECKS = {"M02": m02, "M03": m03}


def main(prop, tier):
    rep = Report(prop, tier)
    with Scratch() as d:
        build("drive")
        CHECKS[prop](rep, tier, d)
    return rep.finish()
