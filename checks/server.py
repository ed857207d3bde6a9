"""S01-S03, S05: the server's memory of models, its endurance and its tokens."""
import collections, copy, json, os, random, subprocess, time

import engine, gen, vlib
from engine import batches, seed
from vlib import Report, Scratch, ToolError, build, log, tlc

KINDS = ["query", "start", "step", "reach", "refine"]
S0 = {"loc": ["c", "L0", "C", 0], "zone": [[]]}
S1 = {"loc": ["c", "L1", "C", 0], "zone": [[]]}


def component(m, name="C"):
    """Content number m: its guards and edges show m."""
    loc = lambda i, inv, t: {"id": i, "nickname": "", "invariant": inv, "type": t, "urgency": "NORMAL", "x": 0, "y": 0, "color": "0",
                             "nicknameX": 0, "nicknameY": 0, "invariantX": 0, "invariantY": 0}
    ed = lambda i, s, t, st, sy, g="", u="": {"id": i, "group": "", "sourceLocation": s, "targetLocation": t, "status": st, "select": "",
                                              "guard": g, "update": u, "sync": sy, "isLocked": False, "nails": []}
    return {"name": name, "declarations": "clock x;", "locations": [loc("L0", "", "INITIAL"), loc("L1", "", "NORMAL")],
            "edges": [ed("E%d" % m, "L0", "L1", "OUTPUT", "a", "x>=%d" % m), ed("F%d" % m, "L1", "L0", "INPUT", "i")],
            "description": "", "x": 0, "y": 0, "width": 1, "height": 1, "color": "0", "includeInPeriodicCheck": False}


def content(m):
    """Contents 1, 2, ... are components; 0 is a request that brings none."""
    return [] if m == 0 else [component(m), component(2, "D")]


def request(k, u, h, m, settings=None):
    r = {"u": u, "h": h, "comps": content(m)}
    if k == "start":
        return {"k": "start", "composition": "C", **r}
    if k == "step":
        return {"k": "step", "composition": "C", "decision": {"source": S0, "action": "a", "destination": S1}, **r}
    return {"k": "query", "settings": settings, **r,
            "query": {"query": "get-component: C save-as Copy", "reach": "reachability: C @ init -> C.L1", "refine": "refinement: C <= D",
                      "cons": "consistency: C && D"}[k]}


def brief(x):
    """Requests without the components' text."""
    if isinstance(x, dict):
        return {k: "..." if k == "comps" and v and isinstance(v[0], dict) else brief(v) for k, v in x.items()}
    return [brief(y) for y in x] if isinstance(x, (list, tuple)) else x


def essence(a):
    """An answer without what is drawn by chance (colours, positions) or is only wording."""
    if isinstance(a, dict):
        if a.get("r") == "status":
            return "refused"
        if a.get("r") == "component" and a.get("component"):
            c = a["component"]
            es = [[e[k] for k in ("sourceLocation", "targetLocation", "status", "sync", "guard", "update")] for e in c["edges"]]
            return [c["name"], c["declarations"], sorted(es), sorted([l["id"], l["invariant"], l["type"]] for l in c["locations"])]
        return {k: essence(v) for k, v in a.items() if k not in ("color", "nails", "x", "y", "nicknameX", "nicknameY", "invariantX", "invariantY", "query_id")}
    if isinstance(a, list):
        return [essence(x) for x in a]
    return a


def model(rep, d, module, what, specs=None, cfg="", invs=("Emit",), spec="Spec", timeout=600, expect=None):
    path = os.path.join(d, "c%d.ndjson" % time.time_ns())
    env = {}
    if specs is not None:
        gen.write(path, specs)
        env["CASES"] = path
    text = "SPECIFICATION %s\nCHECK_DEADLOCK FALSE\n%s%s" % (spec, "".join("INVARIANT %s\n" % i for i in invs), "CONSTANTS\n" + cfg if cfg else "")
    r = tlc("server/" + module, text, d, env=env, timeout=timeout, heap="12g")
    if r.violated != expect:
        log("\n".join(r.tail[-40:]))
        raise ToolError("the specification %s: expected %s, got %s" % (module, expect, r.violated))
    rep.model(r, what)
    out = list(vlib.cases(r.path))
    os.unlink(r.path)
    return out


def fresh(d, settings=None):
    """What a fresh server answers, for every kind of request and every content."""
    cs, keys = [], []
    for k in KINDS + ["cons"]:
        for m in (0, 1, 2, 3):
            keys.append((k, m))
            cs.append({"op": "server", "id": 0, "pool": 1, "cache": 3, "clients": [[request(k, 9, 0, m, settings)]]})
    return {k: essence(a["answers"][0][0][2]) for k, a in zip(keys, engine.drive(cs, d))}


def recorded(case, a, known):
    """The recording as ServerTrace reads it.  Each of the case's requests is (k, u, h, m, raw request)."""
    reqs, ev = [], []
    for rs, xs in zip(case["who"], a["answers"]):
        for (k, u, h, m, _), (c, t, ans) in zip(rs, xs):
            n = len(reqs) + 1
            ev += [(c, n), (t, -n)]
            if k in ("token", "bad", "other"):
                reqs.append({"k": k, "u": u, "h": h, "m": m, "ans": [ans.get("token", 0)]})
            else:
                e = essence(ans)
                reqs.append({"k": "model", "u": u, "h": h, "m": m, "ans": [x for x in (0, 1, 2, 3) if known[(k, x)] == e]})
    return {"reqs": reqs, "events": [n for _, n in sorted(ev)]}


def explain(rep, d, cases, out, known, what):
    """Reports every recording that ServerTrace cannot explain."""
    specs = [recorded(c, a, known) for c, a in zip(cases, out)]
    ok = {x["c"] - 1 for x in model(rep, d, "ServerTrace", what, specs)}
    for j, (c, a) in enumerate(zip(cases, out)):
        if j not in ok:
            rep.violation("no such history: " + what, {"requests": brief(c["who"]), "answers": a["answers"], "explained by": specs[j], "cache": c["cache"], "pool": c["pool"]})
    return specs


def case(who, cache, pool=1):
    return {"op": "server", "id": 0, "pool": pool, "cache": cache, "who": who, "clients": [[r[4] for r in rs] for rs in who]}


def send(d, cases):
    return engine.drive([{k: v for k, v in c.items() if k != "who"} for c in cases], d)


# ids that a careless key would confuse
USERS = [1, 2, 3, 257, 65537, 65538, -1, -2, 0, 2147483647, -2147483648, 16777217]
HASHES = [1, 2, 3, 257, 65537, 65538, 4294967295, 2147483648, 2147483649, 16777217, 256]


def named(r):
    us, hs = r.sample(USERS, 4), r.sample(HASHES, 3)
    return us, [0] + hs


def s01(rep, tier, d):
    consts = " Clients = {1, 2}\n Users = {1, 2}\n Hashes = {0, 1, 2}\n Models = {1, 2}\n N = %d\n" % (3 if tier == "quick" else 4)
    model(rep, d, "CacheModel", "all overlapping requests of two clients", cfg=consts, invs=("Own", "Fresh", "Zero"), timeout=850)
    r = random.Random(seed("S01", 0))
    known = fresh(d)
    for k in KINDS[:4]:
        if len({json.dumps(known[(k, m)], sort_keys=True) for m in (0, 1, 2, 3)}) != 4:
            raise ToolError("answers to %s do not show the model" % k)
    # every short history
    hs = model(rep, d, "Histories", "all histories", invs=("Emit",), timeout=850,
               cfg=" Users = {1, 2, 3}\n Hashes = {0, 1, 2}\n Models = {0, 1, 2}\n Kinds = {1}\n N = %d\n" % (4 if tier == "quick" else 5))
    cs = []
    for h in hs:
        us, hh = named(r)
        cs.append(case([[(k, us[u], hh[g], m, request(k, us[u], hh[g], m)) for u, g, m, _ in h for k in [r.choice(KINDS[:4])]]], r.choice([1, 1, 2, 3, 100])))
    for j in range(0, len(cs), 60000):
        explain(rep, d, cs[j:j + 60000], send(d, cs[j:j + 60000]), known, "all short histories of requests")
    n = len(cs)
    rep.sample({"history": cs[0]["who"][0][0][:4], "cache": cs[0]["cache"]})
    # longer ones, and overlapping ones
    for b, size in batches(tier, 3000, 500, 3000):
        r = random.Random(seed("S01", b + 1))
        cs = []
        for _ in range(size):
            us, hh = named(r)
            nu, nh = r.randint(1, 4), r.randint(1, 3)
            def one():
                k, u, h, m = r.choice(KINDS), us[r.randrange(nu)], hh[r.randint(0, nh)], r.choice([0, 1, 1, 2, 2, 3])
                return (k, u, h, m, request(k, u, h, m))
            if r.random() < .5:
                who = [[one() for _ in range(r.choice([6, 12, 20]))]]
            else:
                who = [[one() for _ in range(r.randint(2, 4))] for _ in range(r.randint(2, 3))]
            cs.append(case(who, r.choice([1, 1, 2, 3, 100]), r.choice([1, 2, 4])))
        explain(rep, d, cs, send(d, cs), known, "long and overlapping histories of requests")
        n += len(cs)
    rep.validated(n, "histories sent to the real server and explained by the specification")


# ------------------------------------------------------------------ S02
def bad(r):
    """An ill-formed request (with the content that it may leave behind)."""
    C = component(1)
    def spoilt(**kw):
        c = copy.deepcopy(component(r.choice([1, 2, 3])))
        for k, v in kw.items():
            c["edges"][0][k] = v
        return c
    dec = lambda **k: {"source": S0, "action": "a", "destination": S1, **k}
    src = lambda loc=S0["loc"], zone=[[]]: {"decision": dec(source={"loc": loc, "zone": zone})}
    k0 = ["c", "L0", "C", 0]
    q = lambda t, **kw: {"k": "query", "query": t, **kw}
    st = lambda **kw: {"k": "start", "composition": "C", **kw}
    sp = lambda **kw: {"k": "step", "composition": "C", "decision": dec(), **kw}
    x = ["k", "x", "C", 0]
    return r.choice([
        lambda: q(""), lambda: q("nonsense"), lambda: q("consistency:"), lambda: q("consistency: C; consistency: D"), lambda: q("consistency: X"),
        lambda: q("refinement: C <= (D"), lambda: q("refinement: C <= X"), lambda: q("refinement: X <= C && C"), lambda: q("\u0000\u0001"), lambda: q("consistency: " + "\u00e9" * 50),
        lambda: q("reachability: C @ init -> C.L9"), lambda: q("reachability: C @ init -> X.L0"), lambda: q("reachability: C @ init -> D.L0"),
        lambda: q("reachability: C @ init -> C.x<99999999999"), lambda: q("reachability: C @ init -> C.x<2147483647"), lambda: q("reachability: C @ C.L7 -> C.L0"),
        lambda: q("reachability: C || C @ init -> C.L0"), lambda: q("implementation: C"), lambda: q("specification: C"), lambda: q("bisim: C"),
        lambda: q("get-component: X save-as Y"), lambda: q("get-component: C // D save-as Y"), lambda: q("prune: C save-as Y"), lambda: q("prune: C"),
        lambda: q("consistency: " + "(" * 60 + "C"), lambda: q("consistency: C", comps=None), lambda: q("consistency: C", comps=[None]),
        lambda: q("consistency: C", comps=["garbage"]), lambda: q("consistency: C", comps=["{}"]), lambda: q("consistency: C", comps=["<nta>"]),
        lambda: q("consistency: C", comps=["<nta></nta>"]), lambda: q("consistency: C", comps=[C, "{\"name\": 3}"]), lambda: q("consistency: C", comps=["[" * 500]),
        lambda: q("consistency: C", comps=[C, "<a/>"]), lambda: q("consistency: C", comps=[{**C, "locations": []}]), lambda: q("consistency: C", comps=[{**C, "declarations": "clock"}]),
        lambda: q("consistency: C", comps=[{**C, "locations": C["locations"] * 2}]), lambda: q("consistency: C", comps=[{**C, "edges": C["edges"] * 2}]),
        lambda: q("determinism: C", comps=[spoilt(guard="x<<1")]), lambda: q("consistency: C", comps=[spoilt(guard="nosuch<1")]), lambda: q("consistency: C", comps=[spoilt(guard="x<1/0")]),
        lambda: q("consistency: C", comps=[spoilt(update="x=1/0")]), lambda: q("consistency: C", comps=[spoilt(update="x")]), lambda: q("consistency: C", comps=[spoilt(guard="x<99999999999")]),
        lambda: q("consistency: C", comps=[spoilt(guard="x*x<1")]), lambda: q("consistency: C", comps=[spoilt(sourceLocation="L9")]), lambda: q("consistency: C", comps=[spoilt(targetLocation="L9")]),
        lambda: q("consistency: C", comps=[spoilt(status="SIDEWAYS")]), lambda: q("consistency: C", comps=[spoilt(sync="")]), lambda: q("refinement: C <= C", comps=[spoilt(guard="x-x<1")]),
        lambda: q("consistency: C", comps=[{**C, "declarations": "clock x; int n;"}]), lambda: q("consistency: C", comps=[{**C, "declarations": "clock x, x;"}]),
        lambda: q("consistency: C", u=-2147483648), lambda: q("consistency: C", h=4294967295),
        lambda: st(comps=None), lambda: st(composition=None), lambda: st(composition=""), lambda: st(composition="X"), lambda: st(composition="(C"),
        lambda: st(composition="C && X"), lambda: st(composition="C // C // C // C"), lambda: st(composition="C || C"), lambda: st(comps=["{"]), lambda: st(comps=[C, "<"]),
        lambda: sp(decision=None), lambda: sp(composition="X"), lambda: sp(composition=None), lambda: sp(comps=None), lambda: sp(comps=[]),
        lambda: sp(decision=dec(source=None)), lambda: sp(decision=dec(destination=None)), lambda: sp(decision=dec(action="")), lambda: sp(decision=dec(action="zz")),
        lambda: sp(decision=dec(action="i")), lambda: sp(decision=dec(destination={"loc": ["c", "L9", "C", 0], "zone": [[]]})),
        lambda: sp(**src(None)), lambda: sp(**src(k0, None)), lambda: sp(**src(["c", "L9", "C", 0])), lambda: sp(**src(["c", "L0", "X", 0])), lambda: sp(**src(["c", "L0", "C", 7])),
        lambda: sp(**src(["c", "L0"])), lambda: sp(**src(["n", k0, None, 1])), lambda: sp(**src(["n", k0, k0, 1])), lambda: sp(**src(["n", k0, k0, 9])), lambda: sp(**src(["u"])), lambda: sp(**src(["e"])),
        lambda: sp(**src(["s", 5])), lambda: sp(**src(["?"])), lambda: sp(**src(k0, [])), lambda: sp(**src(k0, [[[["sys", 99], 0, False, 1]]])), lambda: sp(**src(k0, [[[["sys", 0], 0, True, -1]]])),
        lambda: sp(**src(k0, [[[["k", "y", "C", 0], 0, False, 1]]])), lambda: sp(**src(k0, [[[["k", "x", "C", 3], 0, False, 1]]])), lambda: sp(**src(k0, [[[["k", "x", "D", 0], 0, False, 1]]])),
        lambda: sp(**src(k0, [[[None, 0, False, 1]]])), lambda: sp(**src(k0, [[[["k", "x"], 0, False, 1]]])), lambda: sp(**src(k0, [[[["?"], 0, False, 1]]])),
        lambda: sp(**src(k0, [[[x, 0, False, 2147483647]]])), lambda: sp(**src(k0, [[[x, 0, False, -2147483648]]])), lambda: sp(**src(k0, [[[x, x, True, 0]]])),
        lambda: sp(composition="C || D"), lambda: sp(composition="C // D"),
    ])()


# meaningless: whatever the server does with these, it must not call it a result
def hopeless(q):
    t = q.get("query")
    return (q["k"] == "query" and (t in ("", "nonsense", "consistency:", "consistency: X", "refinement: C <= (D", "bisim: C", "get-component: X save-as Y")
                                   or q.get("comps", 0) in (None, ["garbage"], ["{}"], ["<nta>"]))) or (q["k"] != "query" and q.get("composition") in (None, "", "X", "(C"))


def deep():
    """Texts nested so deeply that reading them takes the stack's end."""
    def g(**kw):
        c = component(1)
        c["edges"][0].update(kw)
        return [c]
    n = 30000
    q = lambda t="consistency: C", comps=None: {"k": "query", "u": 1, "h": 0, "query": t, "comps": comps or content(1)}
    return [("deep-query", q("consistency: " + "(" * n + "C" + ")" * n)), ("deep-state", q("reachability: C @ init -> " + "(" * n + "C.L1" + ")" * n)),
            ("long-state", q("reachability: C @ init -> " + " && ".join(["C.x<1"] * n))), ("deep-guard", q(comps=g(guard="(" * n + "x<1" + ")" * n))),
            ("long-guard", q(comps=g(guard=" && ".join(["x<1"] * n)))), ("deep-update", q(comps=g(update="x=" + "(" * n + "0" + ")" * n))),
            ("long-sum", q(comps=g(guard="x<" + "+".join(["1"] * n))))]


def alone(d, c, timeout=120):
    """The driver's answer to one case in a process of its own, or how it ended."""
    p = subprocess.run([os.path.join(build("drive"), "drive"), "1"], input=json.dumps(c) + "\n", text=True, capture_output=True, timeout=timeout)
    return json.loads(p.stdout) if p.returncode == 0 else {"crash": "%d %s" % (p.returncode, p.stderr[-200:])}


def s02(rep, tier, d):
    known = fresh(d)
    after = known
    cnt = collections.Counter()
    for b, size in batches(tier, 2500, 500, 2500):
        r = random.Random(seed("S02", b))
        cs = []
        for _ in range(size):
            us, hh = named(r)
            nu, nh = r.randint(1, 3), r.randint(1, 2)
            def one():
                u, h, m = us[r.randrange(nu)], hh[r.randint(0, nh)], r.choice([1, 2, 3])
                p = r.random()
                if p < .1:
                    return ("token", u, 0, 0, {"k": "token"})
                if p < .45:
                    k = r.choice(KINDS + ["cons"])
                    return (k, u, h, m, request(k, u, h, m))
                q = bad(r)
                own = "comps" in q
                q = {"u": u, "h": h, "comps": content(m), **q}
                # components of its own are no content that a later request is asked about
                if own:
                    q["h"] = 0 if r.random() < .5 else 77 if r.random() < .5 else h
                    if q["h"] == h and h and not broken(q["comps"]):
                        q["h"] = 0
                return ("bad", q["u"], q["h"] if not own else 0, m, q)
            if r.random() < .6:
                who = [[one() for _ in range(r.choice([3, 6, 12]))]]
            else:
                who = [[one() for _ in range(r.randint(2, 4))] for _ in range(r.randint(2, 3))]
            # and whether the server still answers
            k, u, m = r.choice(KINDS), us[3], r.choice([1, 2, 3])
            who[0].append((k, u, 0, m, request(k, u, 0, m)))
            cs.append(case(who, r.choice([1, 2, 100]), r.choice([1, 1, 2])))
        try:
            out = send(d, cs)
        except ToolError as e:
            if "driver failed" not in str(e):
                raise
            for c in cs:
                a = alone(d, {k: v for k, v in c.items() if k != "who"})
                if "crash" in a:
                    rep.violation("the server's process ends", {"requests": brief(c["who"]), "how": a["crash"]})
                    break
            else:
                raise
            return
        keep = []
        for c, a in zip(cs, out):
            if "answers" not in a:
                rep.violation("the server does not answer", {"requests": brief(c["who"]), "answer": a})
                continue
            keep.append((c, a))
            for rs, xs in zip(c["who"], a["answers"]):
                for q, (_, _, ans) in zip(rs, xs):
                    cnt[q[0] + ":" + str(ans["r"])] += 1
                    if ans["r"] in ("escaped", "none"):
                        rep.violation("a request is not answered", {"request": brief(q), "answer": ans})
                    elif q[0] == "bad" and hopeless(q[4]) and ans["r"] not in ("status", "error") and not q[4]["h"]:
                        rep.violation("a meaningless request has a result", {"request": brief(q), "answer": ans})
        explain(rep, d, [c for c, _ in keep], [a for _, a in keep], known, "well-formed requests among ill-formed ones")
        rep.sample({"requests": [q[4].get("query", q[4]["k"]) for q in cs[0]["who"][0]]})
        rep.validated(len(keep), "histories of well-formed and ill-formed requests on the real server, explained by the specification")
    listed = engine.known("S02")
    for name, q in deep():
        a = alone(d, {"op": "server", "id": 0, "pool": 1, "cache": 2, "clients": [[q]]})
        if "crash" in a or "answers" not in a:
            if name in listed:
                rep.known.append("%s: %s" % (name, listed[name]))
            else:
                rep.violation("the server's process ends", {"request": name, "how": a})
    rep.extra["answers"] = dict(cnt)


def broken(comps):
    """Whether components cannot be read, so that nothing of them may be remembered."""
    return comps is None or any(isinstance(c, str) and c in ("garbage", "{}", "<nta>", '{"name": 3}', "{", "<") for c in comps)


# ------------------------------------------------------------------ S03
def s03(rep, tier, d):
    quick = tier == "quick"
    for n, k in ([(3, 3), (4, 2)] if quick else [(4, 3), (3, 5), (5, 2)]):
        model(rep, d, "Tokens", "%d clients that ask %d times, atomic counter" % (n, k), invs=("Own",), timeout=850,
              cfg=" Clients = {%s}\n N = %d\n Atomic = TRUE\n" % (", ".join(map(str, range(n))), k))
    model(rep, d, "Tokens", "a counter that is read and raised in two steps", invs=("Own",), expect="Own",
          cfg=" Clients = {1, 2}\n N = 1\n Atomic = FALSE\n")
    r = random.Random(seed("S03", 0))
    # many clients at once
    runs = [{"op": "tokens", "id": 0, "threads": t, "each": e} for t, e in ([(8, 4000)] * 6 + [(2, 4000)] * 4 + [(16, 500)] * 10 + [(64, 20)] * 20) * (1 if quick else 12)]
    path = os.path.join(d, "t.ndjson")
    gen.write(path, runs)
    with open(path) as f:
        p = subprocess.run([os.path.join(build("drive"), "drive"), "1"], stdin=f, text=True, capture_output=True, timeout=600)
    out = [json.loads(x) for x in p.stdout.splitlines()]
    if p.returncode or len(out) != len(runs):
        raise ToolError("the driver failed: " + p.stderr[-300:])
    for x in model(rep, d, "TokenTrace", "tokens of clients that ask at the same time", [{"tokens": a["tokens"]} for a in out]):
        a = out[x["c"] - 1]["tokens"]
        twice = [t for t, n in collections.Counter(t for l in a for t in l).items() if n > 1]
        rep.violation("a token is given twice", {"clients": len(a), "each": len(a[0]), "tokens": twice[:10]})
    rep.validated(sum(len(l) for a in out for l in a["tokens"]), "tokens handed out to clients that ask at the same time")
    # among other requests, also failing ones
    known = fresh(d)
    cs = []
    for _ in range(600 if quick else 6000):
        us, hh = named(r)
        def one():
            p = r.random()
            if p < .6:
                return ("token", us[0], 0, 0, {"k": "token"})
            if p < .8:
                return ("bad", us[0], 0, 0, {"u": us[0], "h": 0, "comps": content(1), **bad(r)})
            k, u, h, m = r.choice(KINDS), r.choice(us), r.choice(hh), r.choice([1, 2])
            return (k, u, h, m, request(k, u, h, m))
        who = [[one() for _ in range(r.choice([4, 8, 12]))]] if r.random() < .5 else [[one() for _ in range(3)] for _ in range(r.choice([2, 3]))]
        for rs in who:
            for q in rs:
                if q[0] == "bad":
                    q[4]["h"] = 0
        cs.append(case(who, r.choice([1, 2, 100]), r.choice([1, 2])))
    out = send(d, cs)
    for c, a in zip(cs, out):
        ts = [x[2]["token"] for xs in a.get("answers", []) for x in xs if x[2]["r"] == "token"]
        asked = sum(q[0] == "token" for rs in c["who"] for q in rs)
        if len(ts) != asked or len(set(ts)) != len(ts):
            rep.violation("a token is missing or given twice", {"requests": brief(c["who"]), "tokens": ts, "asked": asked})
    explain(rep, d, cs, out, known, "tokens among other requests")
    rep.validated(len(cs), "histories with token requests on the real server, explained by the specification")


CHECKS = {"S01": s01, "S02": s02, "S03": s03}


def main(prop, tier):
    rep = Report(prop, tier)
    with Scratch() as d:
        build("drive")
        CHECKS[prop](rep, tier, d)
    return rep.finish()
