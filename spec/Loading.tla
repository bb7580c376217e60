------------------------------- MODULE Loading -------------------------------
(* Loading a pulsar: which reader the inputs select, what it is given, and the *)
(* working directory meanwhile and afterwards.                                 *)
EXTENDS Util, Integers
\* x: [args |-> sequence of kinds, pkg |-> "", "tempo2", "pint", "other", fp |-> BOOLEAN (filepath=), t2, pint |-> BOOLEAN (installed),
\*     fail |-> "", "par", "tim" (file missing), "include", "package", "reader"]
Kinds == {"par", "tim", "toa", "feather", "junk", "TOAs", "model", "t2"}
Given(x, k) == \E j \in 1..Len(x.args) : x.args[j] = k
Tim(x) == Given(x, "tim") \/ Given(x, "toa")
\* ---- the rules --------------------------------------------------------------------
Package(x) == IF x.pkg # "" THEN x.pkg ELSE IF x.t2 THEN "tempo2" ELSE IF x.pint THEN "pint" ELSE "other"
FileReader(x) ==
  IF x.fail \in {"par", "tim"} THEN "rejected"
  ELSE IF Package(x) = "tempo2" /\ x.t2 THEN "tempo2 files"
  ELSE IF Package(x) = "pint" /\ x.pint THEN "pint files"
  ELSE "rejected"
Reader(x) ==
  IF Given(x, "feather") \/ x.fp THEN "feather"
  ELSE IF x.pint /\ Given(x, "TOAs") /\ Given(x, "model") THEN "pint objects"
  ELSE IF x.t2 /\ Given(x, "t2") THEN "tempo2 object"
  ELSE IF Given(x, "par") /\ Tim(x) THEN FileReader(x)
  ELSE "rejected"
\* a reader that was selected may still fail
Fails(x) == \/ Reader(x) = "rejected"
            \/ (x.fail = "package" /\ Reader(x) \in {"tempo2 files", "pint files"})
            \/ (x.fail = "reader" /\ Reader(x) # "feather")
            \/ (x.fail = "include" /\ Reader(x) = "tempo2 files")
            \/ (x.fail = "feather" /\ Reader(x) = "feather")
\* ---- step by step ------------------------------------------------------------------
\* r: [pc, cwd, called, failed]; the working directory is left only while files are read
Begin == [pc |-> "look", cwd |-> "home", called |-> "", failed |-> FALSE]
Stop(r, bad) == [r EXCEPT !.pc = "done", !.failed = bad]
Run(x, r) ==
  CASE r.pc = "look" -> IF Given(x, "feather") \/ x.fp THEN [r EXCEPT !.pc = "feather", !.called = "feather"]
                        ELSE IF x.pint /\ Given(x, "TOAs") /\ Given(x, "model") THEN [r EXCEPT !.pc = "build", !.called = "pint objects"]
                        ELSE IF x.t2 /\ Given(x, "t2") THEN [r EXCEPT !.pc = "build", !.called = "tempo2 object"]
                        ELSE IF Given(x, "par") /\ Tim(x) THEN [r EXCEPT !.pc = "files"]
                        ELSE Stop(r, TRUE)
    [] r.pc = "feather" -> Stop(r, x.fail = "feather")
    [] r.pc = "files" -> IF x.fail \in {"par", "tim"} \/ (x.pkg = "" /\ ~x.t2 /\ ~x.pint) THEN Stop(r, TRUE)
                         ELSE [r EXCEPT !.pc = "there", !.cwd = "tim"]
    [] r.pc = "there" -> IF Package(x) = "tempo2" /\ x.t2 /\ x.fail # "include" THEN [r EXCEPT !.pc = "read", !.called = "tempo2 files"]
                         ELSE IF Package(x) = "pint" /\ x.pint THEN [r EXCEPT !.pc = "read", !.called = "pint files"]
                         ELSE [r EXCEPT !.pc = "back", !.failed = TRUE]
    [] r.pc = "read" -> IF x.fail = "package" THEN [r EXCEPT !.pc = "back", !.failed = TRUE] ELSE [r EXCEPT !.pc = "back", !.failed = x.fail = "reader"]
    [] r.pc = "build" -> Stop(r, x.fail = "reader")
    [] r.pc = "back" -> [r EXCEPT !.pc = "done", !.cwd = "home"]
    [] OTHER -> r
\* ---- observations of a tim file -----------------------------------------------------
\* files: name -> sequence of lines [k |-> "toa", n] (n lines) or [k |-> "inc", f] or others
RECURSIVE Observations(_, _)
Observations(files, f) ==
  FoldSeq(LAMBDA ln, acc : acc + (CASE ln.k = "toa" -> ln.n [] ln.k = "inc" -> Observations(files, ln.f) [] OTHER -> 0), 0, files[f])
=============================================================================
