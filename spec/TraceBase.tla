----------------------------- MODULE TraceBase -----------------------------
(* Common part of every trace specification.  The events recorded from the  *)
(* real code are read from the ndjson file named by the environment variable *)
(* TRACE.  A trace specification supplies Judge(e), the set of names of the  *)
(* clauses of the property that event e breaks; the verdict is total: every  *)
(* event is consumed, and each offending one is reported with its clauses.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

FILL == -999999
NAN == -888888

Trace == ndJsonDeserialize(IOEnv.TRACE)

Report(line, clauses) ==
    IF clauses = {} THEN TRUE
    ELSE PrintT("BAD " \o ToJson([line |-> line, clauses |-> clauses]))

(* Named check: C("NAME", cond) is {} when cond holds and {"NAME"} if not.   *)
C(name, cond) == IF cond THEN {} ELSE {name}

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Near(a, b, tol) == Abs(a - b) <= tol
=============================================================================
