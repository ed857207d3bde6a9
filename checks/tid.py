"""T01..T04: what transition ids say (src/TransitionSystems/transition_id.rs).

1. TLC explores TracePaths: systems of components, the paths they can take, and what
   every component did; the properties are checked on the model.
2. Every state of that exploration is replayed into the real code.
3. Larger random paths are run through the real code and the recorded answers are
   checked against TransitionIds by TLC (IdTrace)."""
import json, os, sys
from vlib import *

PATHS = """SPECIFICATION Spec
CONSTANTS MaxComps = %d MaxLen = %d Wide = %s Foreign = %s
INVARIANTS WellFormed LeavesPerComponent SplitsBack NeverMixed Emit
CHECK_DEADLOCK FALSE
"""
TRACE = """SPECIFICATION Spec
INVARIANTS Usable_ok %s
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
"""
QUICK = [(3, 2, "FALSE", "TRUE"), (2, 2, "TRUE", "TRUE"), (3, 1, "TRUE", "FALSE"), (4, 1, "FALSE", "TRUE")]
FOREIGN = QUICK[:2] + [(4, 1, "FALSE", "TRUE")]
QUICK[3] = (4, 1, "FALSE", "FALSE")
THOROUGH = FOREIGN + QUICK[2:] + [(2, 3, "TRUE", "TRUE"), (3, 3, "FALSE", "TRUE"), (5, 1, "FALSE", "FALSE")]


def facet(prop, case, want, got):
    """The disagreements between specification and code that concern this property."""
    bad = []
    if prop == "T01":
        for i, (w, g) in enumerate(zip(want["leaves"], got["leaves"])):
            if w != g:
                bad.append(("leaves of transition %d" % (i + 1), w, g))
    elif prop == "T02" and want["split"]["res"] == "ok" and want["split"] != got["split"]:
        bad.append(("split of the path", want["split"], got["split"]))
    elif prop == "T03" and want["split"]["res"] == "err" and got["split"]["res"] != "err":
        bad.append(("a path of two different systems was not refused", want["split"], got["split"]))
    elif prop == "T04":
        for i, (w, g) in enumerate(zip(want["show"], got["show"])):
            if w != g:
                bad.append(("text of transition %d" % (i + 1), w, g))
    return bad


def main(prop, tier):
    rep = Report(prop, tier)
    bins = build("tid")
    exe = os.path.join(bins, "tid")
    with Scratch() as d:
        for cfg in THOROUGH if tier == "thorough" else FOREIGN if prop == "T03" else QUICK:
            r = tlc("tid/TracePaths", PATHS % cfg, d, timeout=1500)
            if r.violated:
                log("\n".join(r.tail[-40:]))
                raise ToolError("the specification does not satisfy %s" % r.violated)
            rep.model(r, "TracePaths MaxComps=%d MaxLen=%d Wide=%s Foreign=%s" % cfg)
            inp, outp = os.path.join(d, "in"), os.path.join(d, "out")
            n = 0
            with open(inp, "w") as f, open(os.path.join(d, "want"), "w") as w:
                for c in cases(r.path):
                    f.write(json.dumps({"path": c["path"]}) + "\n")
                    w.write(json.dumps(c) + "\n")
                    n += 1
            if n != r.distinct:
                raise ToolError("TLC printed %d cases for %d states" % (n, r.distinct))
            os.unlink(r.path)
            p = run([exe, "replay", inp, outp], 600)
            if p.returncode:
                raise ToolError("replay failed: " + p.stdout[-500:])
            relevant = 0
            with open(os.path.join(d, "want")) as w, open(outp) as o:
                for a, b in zip(w, o):
                    c, got = json.loads(a), json.loads(b)
                    res = c["want"]["split"]["res"]
                    if {"T02": res != "ok", "T03": res != "err"}.get(prop) or not c["path"]:
                        if not (prop == "T02" and not c["path"]):
                            continue
                    relevant += 1
                    if relevant in (50, 500, 5000):
                        rep.sample({"path": got["show"], "split": got["split"]["res"]})
                    for what, want, g in facet(prop, c, c["want"], got):
                        rep.violation(what, {"path": c["path"], "text": c["want"]["show"],
                                             "specification": want, "code": g})
            rep.validated(relevant, "states of TracePaths %s replayed into the code" % (cfg,))
        # recorded answers of the code on larger inputs, judged by TLC
        want_inv = {"T01": "Leaves_ok", "T02": "Split_ok", "T03": "Refuse_ok", "T04": "Show_ok"}[prop]
        for k in range(3 if tier == "quick" else 40):
            tr = os.path.join(d, "trace.ndjson")
            n = 1500
            p = run([exe, "fuzz", str(SEED * 1000 + k), str(n), tr], 300)
            if p.returncode:
                raise ToolError("fuzz failed: " + p.stdout[-500:])
            r = tlc("tid/IdTrace", TRACE % want_inv, d, env={"TRACE": tr}, workers=1, timeout=600)
            if r.violated in ("Usable_ok", "POSTCONDITION"):
                raise ToolError("trace not usable: " + r.violated)
            if r.violated:
                i = r.states - 1      # the line of the state that was just reached
                line = json.loads(open(tr).readlines()[i - 1])
                rep.violation("recorded answers are not those of the specification (%s)" % r.violated, line)
            else:
                rep.model(r, "IdTrace")
                rep.validated(n, "recorded random paths accepted by IdTrace")
    rep.assumptions = ["ids conform to a system of components (every transition on one side of a quotient"
                       " comes from the same operand); an operand a quotient used no transition of counts"
                       " as one component"]
    return rep.finish()
