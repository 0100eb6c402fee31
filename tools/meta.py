"""python3 tools/meta.py: writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T184 = "The 184 tests run fixed files, mostly small ones, in a few modes and compare the verdict; "
SRCF = ["src/Formula.cc", "src/Clause.cc", "src/Variable.cc", "src/SolveFinite.cc", "src/Global.cc"]
BVF = ["bitvec/Formula.cc", "bitvec/Clause.cc", "bitvec/Variable.cc", "bitvec/SolveFinite.cc", "bitvec/Global.cc"]
M = lambda *a: [{"name": n, "where": w} for n, w in a]
SEARCH = M(("conflict-driven search with resolution", "src/Formula.cc NonChronoBacktrack, analyzeConflict, resolve"),
           ("two watched literals", "src/Formula.cc WatchedLiterals, watchedFalsifyLiteral, WatchedUnitPropagation"),
           ("chronological search", "src/Formula.cc ChronoBacktrack, reduceTheory, undoTheory"))
BVM = M(("search over sets of values", "bitvec/Formula.cc WatchedLiterals, analyzeConflict, resolve, watchedReduceTheory, watchedUndoTheory"))
MODES = "every mode of the main solver (-solvech, -solvenc; -wl; -vsids, -vsids_pos, -lazy where it applies)"
PROPS = [
("C01", "A SAT answer comes with a satisfying assignment",
 "Whenever the main solver answers SAT, in any search mode, the model it prints gives every variable exactly one value of its domain and makes every clause of the input true. With a lazy heuristic, which leaves unneeded variables out, the printed part extends to such an assignment.",
 ["inputs", "configurations"], "All well-formed formulas, in " + MODES + ".",
 T184 + "the printed model is never read back.", SRCF, SEARCH),
("C02", "UNSAT is answered only for unsatisfiable formulas",
 "Whenever the main solver answers UNSAT, in any search mode, no assignment of domain values to the variables satisfies all clauses of the input.",
 ["inputs", "configurations"], "All well-formed formulas, in " + MODES + ".",
 T184 + "unsatisfiability of every other formula, after every order of conflicts, is left open.", SRCF, SEARCH),
("C03", "Every solver run ends with exactly one verdict",
 "On every well-formed formula each search mode of the main solver ends by itself, exits with status 0 and prints exactly one verdict, SAT or UNSAT, when no time limit is reached.",
 ["inputs", "configurations"], "All well-formed formulas, including ones with one-valued domains, empty, unit, tautological and repetitive clauses, in " + MODES + ".",
 T184 + "a loop, a crash or a missing answer on another formula goes unseen.", SRCF, SEARCH),
("C04", "Restarts never change what is answered",
 "With any restart threshold the clause-learning modes of the main solver still end, answer SAT only with a satisfying model and UNSAT only for unsatisfiable formulas. The reported number of restarts is the number of times the threshold's worth of conflicts was reached.",
 ["inputs", "configurations", "histories"], "All well-formed formulas and all thresholds, in every clause-learning mode.",
 "The tests use one or two thresholds on a few files; which state a restart hits depends on the whole history of conflicts.", SRCF,
 M(("restart", "src/Formula.cc NonChronoBacktrack, WatchedLiterals: undo to level 0 and the list of units kept"),)),
("C05", "Solving a well-formed input has no memory error or undefined behaviour",
 "On every well-formed formula and in every mode the main solver reads and writes only memory it owns, uses no uninitialised value and executes no operation undefined in C++.",
 ["inputs", "configurations"], "All well-formed formulas, in " + MODES + ".",
 "The tests run without instrumentation; an access outside an array mostly changes nothing they look at.", SRCF,
 M(("index bookkeeping", "src/Formula.cc, src/Clause.cc, src/Variable.cc: VARLIST, CLAUSELIST, ATOM* arrays, DECSTACK"))),
("C06", "The self-check tells the truth about the printed model",
 "After a SAT answer both solvers print exactly one self-check line; it says CORRECT exactly if the printed assignment satisfies every clause of the input. Without a SAT answer no self-check is printed.",
 ["inputs", "configurations"], "All well-formed formulas in every mode of both programs.",
 "The tests look for the word CORRECT, which a check that always passes prints too.", SRCF + ["bitvec/Formula.cc"],
 M(("verifyModel", "src/Formula.cc, bitvec/Formula.cc"))),
("C07", "The time limit is respected and never produces a wrong answer",
 "While the search has used no more than the time given with -time, a solver never answers TIMEOUT; once more has been used it makes at most one further decision before it ends. Whatever the clock does, a SAT or UNSAT answer is right, a TIMEOUT shows no model, and the run ends normally.",
 ["inputs", "schedules", "configurations"], "All formulas, all limits, all moments at which the clock passes the limit, in every mode of both programs.",
 "Tests finish in milliseconds and cannot place the limit between two particular steps of the search.", ["src/Formula.cc", "src/SolveFinite.cc", "src/Global.cc", "bitvec/Formula.cc"],
 M(("clock tests in the search loops", "src/Formula.cc ChronoBacktrack, NonChronoBacktrack, WatchedLiterals; bitvec/Formula.cc WatchedLiterals"))),
("C08", "Comments, spacing and line form never change the answer",
 "Comment lines, blank lines, additional spaces and tabs, carriage returns before line ends, a missing final line end, the problem line's name (cnf or mvcnf), repeated literals and lines of any length leave the meaning of an input as it is: both solvers answer for the formula written there and report its numbers of variables and clauses.",
 ["inputs"], "All ways to format a formula, in every mode of both programs.",
 "The test files come from one generator with one style.", ["src/Formula.cc", "bitvec/Formula.cc"],
 M(("BuildFormula", "src/Formula.cc, bitvec/Formula.cc"))),
("C09", "Options mean the same in every order and combination",
 "The order of the options, the two spellings of the restart option, a restart threshold of 0 or one never reached, the numbers of variables and clauses repeated on the command line, and the log (-verbose) do not change a solver's verdict, counters or model. Generator and converters write the same file whatever the order of their options, and the generator's documented defaults are what it uses for options left out.",
 ["configurations", "inputs"], "All orders and combinations of options, over all formulas and random draws.",
 "Each test uses one fixed command line.", ["src/Global.cc", "src/Main.cc", "src/SolveFinite.cc", "bitvec/Global.cc", "src/GenBenFunc.cc"],
 M(("ParseCommandLine", "src/Global.cc, bitvec/Global.cc"), ("dispatch", "src/Main.cc, src/SolveFinite.cc"))),
("C10", "Boolean to finite-domain conversion keeps the formula",
 "The file written by -b2f declares every Boolean variable with two values and contains one clause per input clause whose literals are the input's, a positive literal as value 1 and a negative one as value 0 (or its complement), with matching counts in the problem line. It is itself a well-formed input of the solver with exactly the models of the Boolean formula.",
 ["inputs"], "All Boolean DIMACS inputs.",
 "The tests compare a handful of converted files.", ["src/Boolean2Finite.cc"], M(("Boolean2Finite", "src/Boolean2Finite.cc"))),
("C11", "Linear encoding keeps exactly the models",
 "The Boolean formula written by -linenc has, under the documented numbering of its variables, exactly the models of the finite-domain input: each input model corresponds to a Boolean model and each Boolean model to an input model. Its problem line states the true numbers of variables and clauses and it is well-formed DIMACS.",
 ["inputs"], "All well-formed finite-domain formulas, all domain sizes.",
 "The tests cover a few files; domains of one and two values and mixed sizes are encoded differently.", ["src/LinearEncode.cc"], M(("LinearEncode", "src/LinearEncode.cc"))),
("C12", "Quadratic encoding keeps exactly the models",
 "The file written by -quadenc contains the input's clauses and, for each variable, one clause demanding some value and one clause for every pair of values forbidding both; nothing else. Read as a Boolean formula over the atoms variable=value it has exactly the models of the input.",
 ["inputs"], "All well-formed finite-domain formulas, all domain sizes.",
 "The tests cover a few files.", ["src/QuadraticEncode.cc"], M(("QuadraticEncode", "src/QuadraticEncode.cc"))),
("C13", "Generated finite-domain problems are well-formed and satisfiable on request",
 "For every outcome of the random draws the generator ends and writes a problem with the requested numbers of variables, clauses and literals per clause, domain lines within the requested size, and clauses over distinct variables with values inside their domains. With -sat 1 (the default) the problem has a model.",
 ["inputs", "configurations"], "All random draws and all parameters with at least as many variables as literals in a clause.",
 "Each test run sees one sequence of draws and checks no satisfiability.", ["src/GenBenFunc.cc"], M(("GenBenFin, planted model", "src/GenBenFunc.cc"))),
("C14", "Generated Boolean problems are well-formed and satisfiable on request",
 "For every outcome of the random draws the Boolean generator ends and writes DIMACS with the requested numbers of variables, clauses and literals per clause, each clause over distinct variables. With -sat 1 (the default) the problem has a model.",
 ["inputs", "configurations"], "All random draws and all parameters with at least as many variables as literals in a clause.",
 "Each test run sees one sequence of draws and checks no satisfiability.", ["src/GenBenFunc.cc"], M(("GenBenBool, planted model", "src/GenBenFunc.cc"))),
("C15", "Converters and generator have no memory error or undefined behaviour",
 "On every well-formed input, and for every outcome of the random draws, the converters and the generator access only memory they own, use no uninitialised value and execute no undefined operation.",
 ["inputs", "configurations"], "All well-formed inputs, parameters and draws.",
 "The tests run without instrumentation.", ["src/Boolean2Finite.cc", "src/LinearEncode.cc", "src/QuadraticEncode.cc", "src/GenBenFunc.cc"],
 M(("array bookkeeping", "src/LinearEncode.cc, src/QuadraticEncode.cc, src/GenBenFunc.cc"))),
("C16", "A SAT answer of the bit-vector solver comes with a model",
 "Whenever the bit-vector solver answers SAT, with any heuristic, it prints for every variable a non-empty set of values of its domain, and every choice of values from these sets satisfies all clauses.",
 ["inputs", "configurations"], "All well-formed formulas with domains of up to 64 values, with each heuristic.",
 "No test runs the bit-vector program.", BVF, BVM),
("C17", "The bit-vector solver answers UNSAT only for unsatisfiable formulas",
 "Whenever the bit-vector solver answers UNSAT, with any heuristic, no assignment of domain values satisfies all clauses.",
 ["inputs", "configurations"], "All well-formed formulas with domains of up to 64 values, with each heuristic.",
 "No test runs the bit-vector program.", BVF, BVM),
("C18", "Every bit-vector solver run ends with exactly one verdict",
 "On every well-formed formula whose domains have at most 64 values the bit-vector solver ends by itself, exits with status 0 and prints exactly one verdict, SAT or UNSAT, when no time limit is reached.",
 ["inputs", "configurations"], "All such formulas, with each heuristic.",
 "No test runs the bit-vector program.", BVF, BVM),
("C19", "The bit-vector solver has no memory error or undefined behaviour",
 "On every well-formed formula whose domains have at most 64 values the bit-vector solver accesses only memory it owns, uses no uninitialised value and executes no undefined operation.",
 ["inputs", "configurations"], "All such formulas, with each heuristic.",
 "No test runs the bit-vector program.", BVF, BVM),
("C20", "Learned clauses follow from the input",
 "Every clause a solver reports having learned (-verbose) is true in every model of the input formula.",
 ["inputs", "histories", "configurations"], "All formulas and all conflicts that arise, in the clause-learning modes of both programs.",
 "A wrong learned clause rarely changes the verdict on the formulas tested, and the log is not read.", ["src/Formula.cc", "src/Clause.cc", "bitvec/Formula.cc", "bitvec/Clause.cc"],
 M(("resolution on the conflicting clause", "src/Formula.cc analyzeConflict, resolve; bitvec/Formula.cc analyzeConflict, resolve"))),
("C21", "The printed counters are true",
 "Every verdict is followed by one block of counters that are not negative: the variables are those declared, the clauses those of the input plus one for each clause learned, the restarts those the threshold implies. With the log on, decisions, entailments and conflicts are exactly as many as are logged.",
 ["inputs", "histories", "configurations"], "All formulas, in every mode of both programs.",
 "The tests do not compare the counters with anything.", ["src/Formula.cc", "src/SolveFinite.cc", "bitvec/Formula.cc", "bitvec/SolveFinite.cc"],
 M(("PrintInfo and the counters", "src/Formula.cc, bitvec/Formula.cc"))),
("C22", "Failures are reported as failures",
 "If the input cannot be opened, if a converter's output cannot be opened, or if a domain exceeds what the bit-vector solver can hold, the program says so, ends with a status other than 0 and prints no verdict; without such a cause it does not fail. The help menu ends on every input, the end of input included.",
 ["fault_sequences", "inputs"], "All commands of both programs, all texts on standard input, all domain sizes.",
 "No test provokes a failure.", ["src/Formula.cc", "src/Global.cc", "src/Boolean2Finite.cc", "src/LinearEncode.cc", "src/QuadraticEncode.cc", "bitvec/Formula.cc", "bitvec/Global.cc"],
 M(("open checks", "src/*.cc, bitvec/Formula.cc"), ("PrintHelp", "src/Global.cc, bitvec/Global.cc"))),
]
TECH = "symbolic execution of the clang IR of /repo (guarded values over BDDs) with SMT (z3) deciding each obligation; replay on the real program"
NOTE = ("Within the stated bounds the verdict covers every value of the symbolic input positions; outside (other sizes, other formulas) nothing is claimed. "
        "Trusted: clang's IR, the executor and stream model in /verif (compared with the real program on random inputs each run), z3. "
        "A counterexample is reported only when the real program, rebuilt from /repo, shows it too.")
def main():
    sys.path.insert(0, os.path.join(V, "lib"))
    import bounds
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for i, t, s, over, q, why, files, mech in PROPS:
            assert len(t) <= 80, t
            f.write(json.dumps({"id": i, "title": t, "statement": s, "quantifier": {"over": over, "text": q}, "why_tests_cant": why,
                                "anchors": {"files": files, "mechanism": mech, "observe_at": ["standard output, output file and exit status of the program"], "hook_needed": None}}) + "\n")
    checks = [{"property": p[0], "quick_cmd": "python3-vt lib/check.py " + p[0],
               "thorough_cmd": "VERIF_TIER=thorough python3-vt lib/check.py " + p[0], "technique": TECH, "level": "model_checking",
               "level_note": "Bounds: " + bounds.BOUNDS[p[0]] + " " + NOTE} for p in PROPS]
    m = {"version": 1, "setup_cmd": "python3-vt lib/setup.py", "checks": checks, "not_applicable": [],
         "notes": "No hooks are needed: the checks read the programs' own output."}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
main()
