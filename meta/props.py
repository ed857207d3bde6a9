"""The property list, in one place: writes properties.jsonl and MANIFEST.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, mech, claim=None, level="model_checking",
      note="", technique="", na=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(rec={"id": id, "title": title, "statement": statement,
                       "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
                       "anchors": {"files": files,
                                   "mechanism": [{"name": a, "where": b} for a, b in mech],
                                   "observe_at": observe or [], "hook_needed": hook}},
                  claim=claim, level=level, note=note, technique=technique, na=na))


TS = "src/TransitionSystems/"
SY = "src/System/"
MO = "src/ModelObjects/"
DR = "src/DataReader/"
PB = "src/ProtobufServer/"
EE = "src/EdgeEval/"
LATER = "planned; no check yet"

# ---------------------------------------------------------------- transition ids
p("T01", "A transition id names every component's own edge, component by component",
  "For every system built from components with composition, conjunction and quotient, the list of leaves of a transition's id has exactly one entry per component, in left-to-right component order, and each entry says which edges of that component the transition used. An operand of a quotient that took no part keeps its place, as one empty entry.",
  ["inputs"], "all systems of components built from composition, conjunction and quotient, all transitions of them",
  "The tests look at a handful of fixed ids; the guarantee is about every shape and every nesting.",
  [TS + "transition_id.rs"], [("get_leaves", TS + "transition_id.rs")], claim=True,
  technique="TLA+ spec TransitionIds/TracePaths checked with TLC; every model state replayed into the code, recorded random answers trace-validated",
  note="Exhaustive up to 3-5 components and short paths; random larger ids trace-validated. Assumes ids conform to one system.")
p("T02", "A path of the system splits into each component's own history",
  "Whenever a path of transition ids comes from one system, splitting it gives, for every component and in component order, exactly the sequence of edge choices that component made along the path.",
  ["histories"], "all systems and all paths of them",
  "The tests split a few fixed paths; the guarantee is about every path of every system.",
  [TS + "transition_id.rs"], [("split_into_component_lists", TS + "transition_id.rs")], claim=True,
  technique="TLA+ spec TracePaths (history variable per component) checked with TLC; every path replayed into the code, random paths trace-validated",
  note="Exhaustive up to 3-5 components and paths of up to 3 transitions; random longer paths trace-validated.")
p("T03", "Paths that mix different systems are refused, not mis-split",
  "Splitting a path whose transition ids have different numbers of components gives an error; it never returns a split and never crashes.",
  ["histories"], "all paths with a transition foreign to the system at any position",
  "Tests try a couple of fixed bad paths.",
  [TS + "transition_id.rs"], [("split_into_component_lists", TS + "transition_id.rs")], claim=True,
  technique="TLA+ spec TracePaths with foreign transitions, checked with TLC and replayed into the code",
  note="Exhaustive up to 3-5 components and paths of up to 3 transitions.")
p("T04", "The text of a transition id shows its structure and all of its edges",
  "The text of a transition id shows every edge id in it, in order, inside the operator that combines them: composition, conjunction and quotient (with all alternatives of each side) can be told apart in the text.",
  ["inputs"], "all transition ids",
  "Tests compare a few fixed texts.",
  [TS + "transition_id.rs"], [("Display for TransitionID", TS + "transition_id.rs")], claim=True,
  technique="TLA+ spec TransitionIds (Show) checked with TLC; every model state replayed into the code, random ids trace-validated",
  note="Exhaustive up to 3-5 components; random larger ids trace-validated.")

# ---------------------------------------------------------------- verdicts
p("V01", "A refinement verdict is the truth about the two specifications",
  "For deterministic, consistent specifications whose actions can be compared, a refinement query answers 'holds' exactly when, from the initial states, every output and every delay of the left can be matched by the right and every input of the right can be matched by the left, for ever and for all real clock values. It answers 'fails' in every other case, and when the right side's inputs are not inputs of the left or the left's outputs not outputs of the right.",
  ["inputs", "programs"], "all pairs of specifications: components with any clocks, guards, invariants and resets, and their compositions, conjunctions and quotients",
  "The tests hold a fixed set of models with known verdicts; the guarantee quantifies over all models and over all real-valued behaviours of each.",
  [SY + "refine.rs", "src/DataTypes/statepair_list.rs", MO + "statepair.rs"],
  [("check_refinement", SY + "refine.rs"), ("passed/waiting lists", "src/DataTypes/statepair_list.rs")], claim=True,
  technique="TLA+ spec Refine.tla over Tioa.tla: TLC explores all pairs of states of the refinement game per generated pair; the engine's verdict is compared",
  note='Generated pairs: components and two-level systems, up to 5 locations, 3 clocks per component, constants up to 3 (some larger), no clock differences. Every pair is exact over the reals (regions).')
p("V02", "A consistency verdict says whether an implementation exists",
  "A consistency query on a deterministic component whose edges reset all clocks answers 'consistent' exactly when from the initial state some strategy of outputs and delays keeps it, against every input, from reaching a state from which it can neither delay for ever nor produce an output. For every other deterministic component it answers 'consistent' whenever no reachable state is stuck in this way, and a composition is consistent when its operands are.",
  ["inputs", "programs"], "all specifications built from components and operators",
  "Tests list fixed models with verdicts.",
  [SY + "local_consistency.rs"], [("is_least_consistent / is_fully_consistent", SY + "local_consistency.rs")], claim=True,
  technique="TLA+ spec Consist.tla (greatest set of states that can be kept, per case) explored with TLC; the engine's verdict is compared",
  note="Exact for components whose edges reset every clock; for others the engine works zone by zone and only the direction 'nothing stuck' is judged; one witness per wrong direction is listed in known_findings.txt.")
p("V03", "A determinism verdict finds every reachable ambiguity",
  "A determinism query answers 'not deterministic' whenever some state that edges lead to from the initial location has two enabled transitions with the same action (guards that overlap, targets whose invariants hold), and never when in no location that edges lead to two such transitions overlap within the invariant. A composed system is judged by its components.",
  ["inputs", "programs"], "all components and composed systems",
  "Tests list fixed models with verdicts.",
  [SY + "local_consistency.rs"], [("is_deterministic", SY + "local_consistency.rs")], claim=True,
  technique="TLA+ specs Det.tla/DetAny.tla explored with TLC (ambiguous actions of every state that edges lead to); the engine's verdict is compared",
  note='Judged per component, as the engine does; between the two bounds (about 1 in 1000 generated cases) both answers are accepted.')
p("V04", "A reachability verdict is the truth about the system's runs",
  "A reachability query answers 'reachable' exactly when some run of the system from the given start state (or the initial state) leads to a state that matches the target's locations and clock constraints.",
  ["inputs", "programs"], "all systems, start and target states",
  "Tests ask about fixed models.",
  [SY + "reachability.rs"], [("find_path / search_algorithm", SY + "reachability.rs")], claim=True,
  technique="TLA+ spec Reach.tla explored with TLC (all runs, by regions); the engine's verdict is compared",
  note='Generated systems of up to three component instances and 5 clocks; start states and targets with partial locations and clock constraints.')
p("V05", "A reachability witness is a run of the system",
  "When a state is reported reachable, the reported path is a sequence of the system's own transitions, each one possible from where the previous one ended, that begins in the start state and ends in the target. No transition of the system is shorter to the goal: the path has the fewest transitions.",
  ["inputs", "programs"], "all systems, start and target states",
  "Tests compare few fixed paths.",
  [SY + "reachability.rs"], [("get_path, make_new_state", SY + "reachability.rs")], claim=True,
  technique='TLA+ spec Path.tla replays every reported path; Reach.tla with a bound shows that no shorter run exists',
  note="Also compares the zones reported along the path with the states of the specification's runs.")
p("V06", "A failure report points at something that really fails",
  "When a refinement, consistency or determinism query fails, the report's kind, state and action name a real cause: in the named state the named action or delay cannot be matched, allowed or kept apart as the report says.",
  ["inputs", "programs"], "all failing queries",
  "Tests compare the kind of few failures.",
  [SY + "query_failures.rs", SY + "refine.rs", SY + "local_consistency.rs"], [("RefinementFailure etc.", SY + "query_failures.rs")], claim=True,
  technique='TLA+ specs Blame.tla, Consist.tla, DetAny.tla explored with TLC: the reported cause must be a real failure of the specification',
  note='Refinement reports must apply to a reachable pair of states; consistency locations to one that cannot be kept; determinism to a really ambiguous location and action.')

# ---------------------------------------------------------------- operators
p("O01", "Composition runs its operands in parallel and synchronises shared actions",
  "A composed specification performs an action of both operands exactly when both can perform it, an action of one operand exactly when that one can, and delays exactly when both can; the clocks and locations of each operand change only by its own edges. It offers as output what either offers, and as input what is an input of one and not an output of the other.",
  ["inputs", "programs"], "all pairs of composable specifications and all their reachable states",
  "Tests check fixed models.",
  [TS + "composition.rs", MO + "transition.rs"], [("Composition::next_transitions", TS + "composition.rs")], claim=True,
  technique="TLA+ spec Table.tla (operator semantics of Tioa.tla) explored with TLC; every reachable state's moves are replayed at its point in the real transition system",
  note='Moves, targets, clock values, invariants, actions and the initial location at every region point of generated systems and their nestings.')
p("O02", "Conjunction allows exactly what both operands allow",
  'A conjunction of consistent specifications performs an action exactly when both operands can perform it, delays exactly when both can delay, and stays within both invariants; its inputs and outputs are the ones both offer.',
  ["inputs", "programs"], "all pairs of specifications with the same actions and all their reachable states",
  "Tests check fixed models.",
  [TS + "conjunction.rs"], [("Conjunction::next_transitions", TS + "conjunction.rs")], claim=True,
  technique="TLA+ spec Table.tla explored with TLC; every reachable state's moves are replayed at its point in the real transition system",
  note='As O01; operands are made consistent, because conjunction prunes what is not.')
p("O03", "A quotient is the weakest specification that completes the known part",
  "For specifications T and S, a specification X refines the quotient T\\\\S exactly when S composed with X refines T; in every state the quotient's moves are those that keep this so.",
  ["inputs", "programs"], "all T, S, X for which the queries are well formed",
  "Tests check fixed triples.",
  [TS + "quotient.rs"], [("Quotient::next_transitions", TS + "quotient.rs")], claim=True,
  technique='TLA+ specs Table.tla (quotient moves) and Refine.tla (adjunction) explored with TLC; both replayed into the engine',
  note='Move tables of quotients; X <= T\\\\S against S||X <= T on generated triples, both sides also against the specification.')
p("O04", "Ill-formed system descriptions are refused with the right actions",
  "A composition is refused exactly when its operands share an output action, a conjunction exactly when an action is an input of one operand and an output of the other (or the operands are otherwise not joinable), and a quotient exactly when the divisor's actions do not fit; the refusal names the offending actions.",
  ["inputs"], "all pairs of specifications",
  "Tests check fixed pairs.",
  [TS + "composition.rs", TS + "conjunction.rs", TS + "quotient.rs", TS + "common.rs"], [("preconditions", TS + "common.rs")], claim=True,
  technique='TLA+ spec Refuse.tla evaluated with TLC over generated action sets; refusals, their kind and named actions compared with the engine',
  note='Action sets of up to five actions over nested operators.')
p("O05", "Refinement is a preorder that the operators respect",
  "Every well-formed specification refines itself; if A refines B and B refines C then A refines C; a conjunction refines each operand and is refined by everything that refines both; composing both sides with the same specification preserves refinement.",
  ["inputs", "programs"], "all specifications for which the queries are well formed",
  "Tests check reflexivity of fixed models.",
  [SY + "refine.rs"], [("check_refinement", SY + "refine.rs")], claim=True,
  technique="Laws of the TLA+ refinement relation (checked on Refine.tla's verdicts) evaluated on families of real answers",
  note='Families of four to six specifications: reflexivity, transitivity, conjunction as greatest lower bound, precongruence of composition.')

# ---------------------------------------------------------------- transformations
p("M01", "Input-enabling completes a component without changing what it already did",
  "After a component is made input-enabled, every input is possible in every state within the invariant, each added reaction stays in the same location and state without resetting clocks, and no behaviour that was already there changes.",
  ["inputs", "programs"], "all components",
  "Tests check fixed components.",
  [SY + "input_enabler.rs"], [("make_input_enabled", SY + "input_enabler.rs")], claim=True,
  technique="TLA+ spec Grid.tla (every state of a grid, reachable or not) explored with TLC; every state's moves are replayed at its point in the real input-enabled component",
  note="Generated components with diagonals, disjunctions, repeated assignments and overlapping guards; each state of a half-open grid of region points.")
p("M02", "Pruning removes exactly the behaviour that leads to inconsistency",
  "The component that a prune query answers allows every step of the system between states from which it can be kept, against every input, from inconsistent locations and from getting stuck; none that leads from a state where inconsistent locations can be avoided to one where they cannot; and none that the system does not have. When the system is inconsistent or its initial state cannot avoid an inconsistent location, the query is refused with an error.",
  ["inputs", "programs"], "all systems that can be saved",
  "No test prunes anything; what must go depends on zones, delays and the order in which locations are visited.",
  [SY + "pruning.rs", SY + "save_component.rs"], [("prune", SY + "pruning.rs"), ("get_locations_from_trees", SY + "save_component.rs")], claim=True,
  technique="TLA+ specs Keep.tla (the states from which inconsistent locations can be avoided, as fixpoints of the timed game, computed by TLC) and Prune.tla (the system and what the engine left of it run together, checked with TLC for a state in which too much or too little is possible)",
  note="Generated components with inconsistent and universal locations, their compositions, conjunctions and quotients; between the two fixpoints (avoiding, and avoiding without getting stuck) either answer is accepted; whether a system is inconsistent is what the engine's consistency query says (V02).")
p("M03", "A saved combined component behaves like the system it was saved from",
  "A component saved from a system (get-component) can be read again by anyone who knows the file format, and has the same timed behaviour as that system: the same inputs and outputs are possible after the same delays, forever. Actions that the system never performs may be missing, and inputs that it does not react to are ignored.",
  ["inputs", "programs"], "all deterministic systems that can be saved",
  "Tests check fixed models, by the engine's own refinement.",
  [SY + "save_component.rs", MO + "Expressions/bool_expression.rs", MO + "transition.rs"], [("combine_components", SY + "save_component.rs"), ("from_constraint", MO + "Expressions/bool_expression.rs")], claim=True,
  technique="TLA+ spec Same.tla (the system and what was saved of it run together, checked with TLC for a state in which one can do what the other cannot); the saved components come from the real engine, which also has to give the verdicts of Refine.tla about them when it reads them back",
  note="Generated systems of all operators, with clashing clock names and redundant clocks, with and without clock reduction; systems that can move in two ways on one action are not judged.")
p("M04", "Clock reduction never changes an answer",
  "Every refinement, reachability, consistency and determinism query has the same answer with clock reduction on and off.",
  ["inputs", "programs"], "all components, systems and queries",
  "Tests count clocks in fixed models.",
  [SY + "extract_system_rep.rs", MO + "component.rs"], [("clock_reduction", SY + "extract_system_rep.rs")], claim=True,
  technique="Hyperproperty of the TLA+ semantics (a redundant clock is invisible in Refine.tla/Ask.tla): the engine's answers with reduction on and off are compared with each other and with the specification's verdicts",
  note="Generated components with clocks that are unused, trivially used, used apart, reset only or mirrored; one known finding (unreached-component).")

# ---------------------------------------------------------------- language
p("L01", "A guard or invariant means what its text says",
  "The set of clock values a parsed guard or invariant admits is exactly the set its text describes, with 'or' binding tighter than 'and', comparisons between clocks, differences and integer arithmetic, whatever the nesting; the same holds for the values an update assigns. A text that is no guard or update is refused.",
  ["inputs"], "all guard and invariant texts",
  "Tests check fixed texts.",
  [DR + "parse_edge.rs", EE + "constraint_applyer.rs", MO + "Expressions/bool_expression.rs", MO + "Expressions/arith_expression.rs"],
  [("parse_guard", DR + "parse_edge.rs"), ("apply_constraints_to_state", EE + "constraint_applyer.rs")], claim=True,
  technique="TLA+ spec Guards.tla: TLC derives every guard within a budget of productions and evaluates it at every point of a grid; each text is parsed and applied by the real code at the same points",
  note="All derivations of up to 3-4 terms, and random longer ones, also spoilt ones; guards whose value is not defined (division by zero, unknown names, products of clocks) are not judged.")
p("L02", "Writing a component and reading it back changes nothing",
  "A component written to its file format and read back has the same locations, edges, guards, updates, invariants, clocks and actions, and every guard, invariant and update has the same meaning.",
  ["inputs"], "all components",
  "No test writes a component and reads it back with nested expressions.",
  [DR + "serialization.rs", DR + "json_reader.rs", DR + "json_writer.rs"], [("serde encoders", DR + "serialization.rs")], claim=True,
  technique="The meaning that TLA+ spec Guards.tla (TLC) gives to every guard, invariant and update of generated components is compared with what the real reader understands after the real writer wrote them",
  note="Generated components of up to 4 locations and 5 edges with nested guards, integer variables and every kind of location; JSON format (the only one that is written).")
p("L03", "A query text becomes the query it says",
  "Every query text of the grammar is understood with the operators' documented precedence and grouping, and unknown or malformed text is refused without a crash.",
  ["inputs"], "all query texts",
  "Tests check fixed texts.",
  [DR + "parse_queries.rs", MO + "Expressions/query_expression.rs"], [("parse_to_query", DR + "parse_queries.rs")], claim=True,
  technique="TLA+ spec Queries.tla: TLC derives every query within a budget of productions, with its tree; each text is parsed by the real code and the trees compared",
  note="All derivations of up to 4-5 components or atoms, and random longer ones, also spoilt ones.")

# ---------------------------------------------------------------- server
p("S01", "The model cache never answers with another model",
  "A query that names a components hash is answered from exactly the components that were sent with that hash by that same user, never from another user's or an older model; a hash of zero is never remembered.",
  ["histories"], "all sequences of requests of several users, with evictions",
  "Tests run a few requests in a fixed order.",
  [DR + "component_loader.rs", PB + "ecdar_requests/request_util.rs"], [("ModelCache", DR + "component_loader.rs")], claim=True,
  technique="TLA+ spec Cache/CacheModel checked with TLC for overlapping requests; all short request histories (Histories.tla) and random overlapping ones sent to the real server and explained by TLC (ServerTrace.tla)",
  note="All histories of 4-5 requests of up to 3 users, 3 hashes and 3 contents; random ones of up to 20 requests and up to 3 overlapping clients. gRPC transport is not exercised: the service's methods are called.")
p("S02", "No request can take the server down or poison it",
  "Whatever a request contains, the server answers that request with a result or an error, and every later well-formed request is answered as by a fresh server.",
  ["histories", "fault_sequences"], "all sequences of well-formed and ill-formed requests",
  "Tests send single well-formed requests.",
  [PB + "ecdar_backend.rs"], [("catch_unwind", PB + "ecdar_backend.rs")], claim=True,
  technique="Random histories of well-formed and some 100 kinds of ill-formed requests on the real server, explained by TLC with TLA+ spec ServerTrace.tla: every request returns, and later answers are those of a fresh server",
  note="Up to 12 requests and 3 overlapping clients; a hanging or dying server is detected. Known finding: texts nested or chained 30000 deep overflow the stack.")
p("S03", "Every user gets a token of their own",
  "No two requests for a user token get the same token, however the requests are interleaved.",
  ["schedules"], "all interleavings of token requests",
  "Tests ask for no token.",
  [PB + "ecdar_backend.rs"], [("get_user_token", PB + "ecdar_backend.rs")], claim=True,
  technique="TLA+ spec Tokens checked with TLC over all interleavings (and shown to find the race of a non-atomic counter); tokens handed out by the real server under contention and among other requests trace-validated (TokenTrace, ServerTrace)",
  note="Up to 64 real threads and 330,000 tokens per run; the real schedules are whatever the machine produces.")
p("S04", "A simulation step follows the chosen edge",
  "The decision points a simulation offers in a state are exactly the edges that can be taken there, and choosing one leads to the states the system really reaches by it.",
  ["histories", "programs"], "all systems and all sequences of decisions",
  "Tests take one step of a fixed model.",
  ["src/Simulation/decision.rs", DR + "proto_reader.rs", PB + "ecdar_requests/simulation_requests.rs"],
  [("Decision::resolve", "src/Simulation/decision.rs")], claim=True,
  technique="Recorded simulations (start, then steps taking offered decisions) are trace-validated by TLC against TLA+ spec Sim.tla: decisions and zones must be exactly those of the specified region semantics",
  note="Generated systems of up to 3 clocks, including conjunctions, quotients and nondeterministic ones; up to 6 steps; zones compared at all points whose clocks are within their largest constants.")


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps(x["rec"], ensure_ascii=False) + "\n")
    checks, na = [], []
    for x in P:
        i = x["rec"]["id"]
        if x["claim"]:
            checks.append({"property": i, "quick_cmd": "python3 checks/check.py %s quick" % i,
                           "thorough_cmd": "python3 checks/check.py %s thorough" % i,
                           "technique": x["technique"], "level": x["level"], "level_note": x["note"]})
        else:
            na.append({"property": i, "reason": x["na"]})
    m = {"version": 1, "setup_cmd": "sh checks/setup.sh",
         "hooks": {"guard": "none", "enable": "no hooks are needed: the harness crates compile /repo's sources by path",
                   "source_commits": []},
         "checks": checks, "not_applicable": na,
         "notes": "meta/props.py writes this file and properties.jsonl."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")


main()
