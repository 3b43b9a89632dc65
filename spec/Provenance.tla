------------------------------ MODULE Provenance ------------------------------
(* Where a product says it comes from.  A file is made by one step from      *)
(* source files; its history lists records (time, file that was created) of  *)
(* its own creation and of everything it was made from.  A forecast file     *)
(* has a history of its own of which only the last record is passed on.      *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxFiles, Times
VARIABLES files    \* Seq of [kind, src (set of indices), hist (Seq of <<time, file>>)]
vars == <<files>>
Derived == {"categorize", "product", "comparison"}
Range(s) == {s[i] : i \in 1..Len(s)}
(* ---- merging of histories ---- *)
RECURSIVE Sorted(_)
Latest(S) == CHOOSE r \in S : \A q \in S : r[1] >= q[1] /\ (r[1] = q[1] => r[2] >= q[2])
Sorted(S) == IF S = {} THEN <<>> ELSE LET r == Latest(S) IN <<r>> \o Sorted(S \ {r})
Passed(f) == IF f.kind = "model" THEN {f.hist[Len(f.hist)]} ELSE Range(f.hist)
Merged(src) == Sorted(UNION {Passed(files[i]) : i \in src})
(* ---- steps ---- *)
Add(kind, src, hist) == files' = Append(files, [kind |-> kind, src |-> src, hist |-> hist])
New == Len(files) + 1
Count(k) == Cardinality({i \in 1..Len(files) : files[i].kind = k})
Make(kind, src, t) == Add(kind, src, <<<<t, New>>>> \o Merged(src))
Measure(kind, t) == Count(kind) = 0 /\ Add(kind, {}, <<<<t, New>>>>)
Forecast(t) == Count("model") = 0 /\ Add("model", {}, <<<<0, 0>>, <<t, New>>>>)
Is(i, k) == i \in 1..Len(files) /\ files[i].kind = k
Categorize(r, l, m, w, t) ==
    /\ Is(r, "radar") /\ Is(l, "lidar") /\ Is(m, "model")
    /\ w \in {0, r} \/ Is(w, "mwr")
    /\ Make("categorize", {r, l, m} \cup ({w} \ {0}), t)
Derive(c, t) == Is(c, "categorize") /\ Make("product", {c}, t)
Epsilon(r, m, t) == Is(r, "radar") /\ Is(m, "model") /\ Count("product") = 0 /\ Make("product", {r, m}, t)
Compare(p, m, t) == (Is(p, "product") \/ Is(p, "categorize")) /\ Is(m, "model") /\ files[p].src # {} /\ Make("comparison", {p, m}, t)
Init == files = <<>>
Raw == \E t \in Times : (\E k \in {"radar", "lidar", "mwr"} : Measure(k, t)) \/ Forecast(t)
Cooked == \E a, b, c, d \in 0..Len(files), t \in Times :
             \/ Categorize(a, b, c, d, t)
             \/ (b = 0 /\ c = 0 /\ d = 0 /\ Derive(a, t))
             \/ (c = 0 /\ d = 0 /\ Epsilon(a, b, t))
             \/ (c = 0 /\ d = 0 /\ Compare(a, b, t))
Next == Len(files) < MaxFiles /\ (Raw \/ Cooked)
Spec == Init /\ [][Next]_vars
(* ---- what a reader of a file relies on ---- *)
Ids(h) == {h[i][2] : i \in 1..Len(h)}
RECURSIVE Ancestors(_)
Ancestors(i) == files[i].src \cup UNION {Ancestors(j) : j \in files[i].src}
OwnFirst == \A i \in 1..Len(files) : files[i].kind # "model" => files[i].hist[1][2] = i
Complete == \A i \in 1..Len(files) : files[i].kind # "model" => Ids(files[i].hist) = {i} \cup Ancestors(i)
Distinct == \A i \in 1..Len(files) : Cardinality(Ids(files[i].hist)) = Len(files[i].hist)
NewestFirst == \A i \in 1..Len(files) : files[i].kind # "model" => \A j \in 2..(Len(files[i].hist) - 1) : files[i].hist[j][1] >= files[i].hist[j + 1][1]
NeverLost == \A i \in 1..Len(files) : \A j \in files[i].src : files[j].kind # "model" => Range(files[j].hist) \subseteq Range(files[i].hist)
Grows == [][\A i \in 1..Len(files) : files'[i] = files[i]]_vars
=============================================================================
