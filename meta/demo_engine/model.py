"""Components for demonstrations, in the file format of Ecdar."""
import json, sys


def comp(name, clocks, locs, edges):
    """locs: {id: invariant}, the first one initial, a type after '|'; edges: (source, "a?", guard, update, target)."""
    ls = []
    for k, (i, inv) in enumerate(locs.items()):
        inv, _, typ = inv.partition("|")
        ls.append({"id": i, "nickname": "", "invariant": inv, "type": typ or ("INITIAL" if k == 0 else "NORMAL"),
                   "urgency": "NORMAL", "x": 0, "y": 0, "color": "0", "nicknameX": 0, "nicknameY": 0, "invariantX": 0, "invariantY": 0})
    es = [{"id": "E%d" % k, "sourceLocation": s, "targetLocation": t, "status": "INPUT" if a[-1] == "?" else "OUTPUT",
           "select": "", "guard": g, "update": u, "sync": a[:-1], "isLocked": False, "nails": []}
          for k, (s, a, g, u, t) in enumerate(edges)]
    return {"name": name, "declarations": "clock %s;" % ", ".join(clocks) if clocks else "", "locations": ls, "edges": es,
            "description": "", "x": 0, "y": 0, "width": 0, "height": 0, "color": "0", "includeInPeriodicCheck": False}


def run(cases, judge):
    """cases: [{"op": ...}]; judge(answers) returns what is wrong, or None."""
    if sys.argv[1] == "ask":
        for k, c in enumerate(cases):
            print(json.dumps(dict(c, id=k)))
        sys.exit(0)
    out = [json.loads(l) for l in sys.stdin]
    wrong = judge(out)
    print(wrong or "as it should be")
    sys.exit(1 if wrong else 0)


def queries(comps, qs, expected, reduce=False):
    """Asks the queries; each answer must be of the kind that is expected."""
    def judge(out):
        if "answers" not in out[0]:
            return str(out[0])[:300]
        bad = [(q, e, a) for q, e, a in zip(qs, expected, out[0]["answers"]) if a["r"] != e]
        return "%s: expected %s, answer %s" % (bad[0][0], bad[0][1], json.dumps(bad[0][2])[:300]) if bad else None
    run([{"op": "query", "comps": comps, "queries": [[q, reduce] for q in qs]}], judge)
