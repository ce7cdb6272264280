"""Technique and assurance notes of each check, for MANIFEST.json."""
PI = "path-sensitive abstract interpretation of rustc MIR over provenance terms, compared with a reference"
BOUND = ("Decides every path of the named functions up to the loop bound given in the evidence (loop-free code completely), for all component parsers, printers and inputs, which stay symbolic. "
         "Trusts the models of std/syn/proc_macro2 operations and that longer loops behave like the bounded ones; reports 'undecided' instead of an alarm when the code goes beyond the models.")
CORPUS = ("Each derived program of the corpus is validated on all paths for all component parsers; definitions outside the corpus (other sizes, names, shapes) are covered only as far as the derive treats them alike, "
          "which constants read from its source direct. ")
TECHNIQUE = {}
NOTE = {}
NOT_APPLICABLE = {}
for i in ("C01", "C02", "C03", "C04"):
    TECHNIQUE[i] = "expand a corpus with the current derive; " + PI
    NOTE[i] = CORPUS + BOUND
for i in ("C07", "C08", "C09", "C10", "C11", "C13", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C29", "C30", "C31", "C32"):
    TECHNIQUE[i] = PI
    NOTE[i] = BOUND
TECHNIQUE["C14"] = "lasso detection in the abstract state graph of every Parse impl (MIR abstract interpretation)"
NOTE["C14"] = ("All paths of every Parse impl of the library with component parsers that may succeed without consuming; a loop or recursion that returns to the same stream position with the same decisions is reported. "
               "Left recursion in user grammars is not a repetition and is outside the property.")
TECHNIQUE["C05"] = "type-level witnesses (trait-solver applicability, ambiguity witnesses for absence) on a derive corpus"
NOTE["C05"] = ("Exact for every definition of the corpus, decided by rustc's trait solver on the current tree's expansions; definitions outside the corpus are covered only as far as the derive treats them alike.")
TECHNIQUE["C06"] = "compile-pass and compile-fail witnesses on a derive corpus"
NOTE["C06"] = ("Exact for every definition of the corpus; others only as far as the derive treats them alike. Excluded: constants, statics or unit structs in scope with the lower-case names of the expansion's own local variables.")
TECHNIQUE["C12"] = "typestate invariant by abstract interpretation of every public function over Separated, plus compile-fail witnesses for encapsulation"
NOTE["C12"] = BOUND
TECHNIQUE["C23"] = TECHNIQUE["C30"] = TECHNIQUE["C24"] = "path-sensitive abstract interpretation of rustc MIR with writer-event lists, compared with a reference"
TECHNIQUE["C26"] = "panic reachability by abstract interpretation of MIR with a totality classification of callees; unsafe-code search on the type-checked program"
NOTE["C26"] = ("Every path of every parser of the library, of the derived corpus and of generated keywords, up to the loop bound; a callee of std/syn/proc_macro2 counts as total only by an explicit list, and one that is on neither list leaves the "
               "obligation undecided. Recursion depth, memory exhaustion and panics inside syn/proc_macro2 are outside it; unsafe code is decided completely for both crates and the expanded corpus.")
TECHNIQUE["C27"] = "interprocedural effect analysis over the derive crate's MIR"
NOTE["C27"] = ("Flow-insensitive and complete over the bodies reachable from the derives (static, resolved calls, closures; an unresolved call is reported as undecided). Trusts the table of non-deterministic operations of std/syn/proc_macro2/deluxe.")
TECHNIQUE["C28"] = "path-sensitive abstract interpretation of parse-then-print with token provenance (structural induction)"
NOTE["C28"] = ("Follows the printed items along the consumed stream on every successful path up to the loop bound, for the library's structural types and the derived corpus; by induction printing inverts parsing for their compositions. "
               "What proc_macro2 prints for a literal and what syn reads back are trusted, except for the sign of zero, which is the recorded finding.")
TECHNIQUE["C29"] = PI
TECHNIQUE["C18"] = TECHNIQUE["C19"] = PI + ", on symbolic and on given literal values"
