"""What the runs of each check range over."""
SH = ("formulas of 2 variables with every literal of every clause free (2 clauses of 3, or 3 of 2 literals), 4 to 12 literal positions free in fixed "
      "formulas of 4 to 70 variables at the edge of unsatisfiability (domains 1 to %s; also with several literals over one variable, tautologies, empty and unit clauses, "
      "no clauses at all, pigeon-hole formulas, clauses padded with 66 to 270 literals that are false from the start), sizes up to clauses of %s literals, one of 20000, 66000 variables "
      "and 70000 clauses (there 2 to 8 free literals), searches some 300 decisions deep and one behind 32800 facts, values ruled out by 3000 clauses; restart thresholds 1, 2, 3 where the mode has them, up to some 500 restarts; with and without the log; searches unrolled to their end; about %s inputs.")
S1 = SH % ("1000, one of 70000", 300, "%s"); S2 = SH % (64, 140, "%s")
BOUNDS = {
 "C01": S1 % "9 million", "C02": S1 % "9 million", "C03": S1 % "9 million",
 "C04": "restart thresholds 1, 2, 3, 5, 100; 3 to 12 free literal positions in formulas of 4 to 300 variables; up to some 500 restarts; about 4 million inputs.",
 "C05": S1 % "9 million", "C06": S2 % "11 million",
 "C07": "clock jumps of 0 to 5000000 s after 1 to 9 decisions or at reading 1 to 17, limits 10 s, 5000000 s and none; 3 to 7 free literal positions.",
 "C08": "8 free formatting choices and 4 free literals in each of 6 formulas per mode; lines up to 80000 characters, 20000 repetitions, 230 literals in a clause.",
 "C09": "up to 6 orders or spellings per mode over formulas with 6 free literals; 7 free random draws for the generator.",
 "C10": "formulas of 3 and 4 variables with free literals, 2 to 8 free literals in formulas of up to 66000 variables, 70000 clauses and clauses of 250 literals, one of 24000, none to 7 free formatting choices, no clauses at all.",
 "C11": "domains 1 to 300 mixed, up to 34000 variables and 70000 clauses, clauses of 0 to 60 literals, one of 20000, 2 to 8 free literals or all literals of 2 clauses, 7 free formatting choices.",
 "C12": "domains 1 to 300 mixed, up to 34000 variables and 70000 clauses, clauses of 0 to 60 literals, one of 20000, 2 to 8 free literals or all literals of 2 clauses, 7 free formatting choices.",
 "C13": "the first 2 to 11 random draws free (4 values each or more), the rest fixed; 1 to 70000 variables, 0 to 70000 clauses of 1 to 300 literals, domains 1 to 70000.",
 "C14": "the first 2 to 11 random draws free, the rest fixed; 1 to 70000 variables, 0 to 70000 clauses of 1 to 300 literals.",
 "C15": "the inputs of C10 to C14.",
 "C16": S2 % "2 million", "C17": S2 % "2 million", "C18": S2 % "2 million", "C19": S2 % "2 million",
 "C20": "formulas of 2 variables with all literals free, 3 to 12 free literals in formulas of 4 to 20 variables, restart thresholds 1, 2, 3 and none; every clause reported as learned.",
 "C21": "as C01 for the block of counters; formulas with up to 6 free literals, and restart thresholds 1, 2, 3, for the comparison with the log.",
 "C22": "menu texts of 3 free characters and a tail; inputs that can or cannot be opened; domains 2 to 200 for the bit-vector solver.",
}
