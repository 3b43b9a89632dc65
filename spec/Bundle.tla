------------------------------- MODULE Bundle -------------------------------
(* Daily bundling of netCDF files (bundle_netcdf_files), concatenation of    *)
(* text files and truncation.  A candidate file is                           *)
(*   [name, readable, epochday, times]  with times in seconds since 00 UTC   *)
(* of day `epochday`; days are counted from the requested date (= day 0).    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Day(f, i) == f.epochday + (f.times[i] \div 86400)
OnDate(f) == \E i \in 1..Len(f.times) : Day(f, i) = 0
Selected(files) == SelectSeq(files, LAMBDA f : f.readable /\ OnDate(f))

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

Prefix(s, n) == SubSeq(s, 1, IF n < Len(s) THEN n ELSE Len(s))

-----------------------------------------------------------------------------
CONSTANTS Pool, MaxFiles
VARIABLES todo, cursor, chosen, given
bvars == <<todo, cursor, chosen, given>>

InitB == \E n \in 1..MaxFiles : \E fs \in [1..n -> Pool] :
    /\ given = [i \in 1..n |-> fs[i] @@ [name |-> n + 1 - i]]
    /\ todo = given
    /\ cursor = 1
    /\ chosen = <<>>

SkipUnreadable == /\ todo # <<>> /\ ~Head(todo).readable
                  /\ todo' = Tail(todo) /\ cursor' = 1 /\ UNCHANGED <<chosen, given>>
StampMatches == /\ todo # <<>> /\ Head(todo).readable
                /\ cursor <= Len(Head(todo).times)
                /\ Day(Head(todo), cursor) = 0
                /\ chosen' = Append(chosen, Head(todo))
                /\ todo' = Tail(todo) /\ cursor' = 1 /\ UNCHANGED given
StampElsewhere == /\ todo # <<>> /\ Head(todo).readable
                  /\ cursor <= Len(Head(todo).times)
                  /\ Day(Head(todo), cursor) # 0
                  /\ cursor' = cursor + 1 /\ UNCHANGED <<todo, chosen, given>>
NoStampLeft == /\ todo # <<>> /\ Head(todo).readable
               /\ cursor > Len(Head(todo).times)
               /\ todo' = Tail(todo) /\ cursor' = 1 /\ UNCHANGED <<chosen, given>>
NextB == SkipUnreadable \/ StampMatches \/ StampElsewhere \/ NoStampLeft
SpecB == InitB /\ [][NextB]_bvars

ScanMeetsDefinition == todo = <<>> => chosen = Selected(given)
NeverWrongDay == \A i \in 1..Len(chosen) : OnDate(chosen[i]) /\ chosen[i].readable
=============================================================================
