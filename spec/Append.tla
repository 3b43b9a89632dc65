------------------------------- MODULE Append -------------------------------
(* Incremental append of new data to a daily file                            *)
(* (cloudnetpy.concat_lib.update_nc).                                        *)
(* The file is a sequence of rows [t, ...]; an arriving file is a sequence   *)
(* of rows too. One Update action per call, Fail for an unreadable arrival.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

LastTime(file) == file[Len(file)].t

(* Rows of the arriving file that the call must add, in their order.         *)
Newer(file, new) == SelectSeq(new, LAMBDA r : r.t > LastTime(file))

Result(file, new) == file \o Newer(file, new)
Code(file, new) == IF Newer(file, new) = <<>> THEN 0 ELSE 1

-----------------------------------------------------------------------------
CONSTANTS Times, MaxLen, Steps
VARIABLES file, hist, ret

vars == <<file, hist, ret>>

(* Strictly increasing sequences over Times up to a length                   *)
IncSeqs(n) == {s \in UNION {[1..k -> Times] : k \in 1..n} :
                  \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]}
Rows(s, id) == [i \in 1..Len(s) |-> [t |-> s[i], id |-> id * 10 + i]]

InitA == \E s \in IncSeqs(2) :
    /\ file = Rows(s, 1)
    /\ hist = <<[new |-> file, ok |-> TRUE]>>
    /\ ret = -1

Update == \E s \in IncSeqs(MaxLen) :
    /\ Len(hist) <= Steps
    /\ LET new == Rows(s, Len(hist) + 1)
       IN /\ file' = Result(file, new)
          /\ ret' = Code(file, new)
          /\ hist' = Append(hist, [new |-> new, ok |-> TRUE])

(* The new file is missing or unreadable: nothing changes.                   *)
Fail ==
    /\ Len(hist) <= Steps
    /\ ret' = 0
    /\ hist' = Append(hist, [new |-> <<>>, ok |-> FALSE])
    /\ UNCHANGED file

NextA == Update \/ Fail
SpecA == InitA /\ [][NextA]_vars

Increasing == \A i \in 1..(Len(file) - 1) : file[i].t < file[i + 1].t
FirstComeWins ==   \* each row kept is a row that once arrived
    \A i \in 1..Len(file) : \E h \in 1..Len(hist) :
        \E k \in 1..Len(hist[h].new) : hist[h].new[k] = file[i]
NothingNewerLost ==  \* no arrived time later than the file's end is missing
    \A h \in 1..Len(hist) : \A k \in 1..Len(hist[h].new) :
        hist[h].new[k].t <= LastTime(file)
OnlyGrows == [][Len(file') >= Len(file) /\ SubSeq(file', 1, Len(file)) = file]_vars
RetTruth == [][ret' = (IF Len(file') > Len(file) THEN 1 ELSE 0)]_vars
Idempotent == \A h \in 2..Len(hist) : Result(file, hist[h].new) = file
=============================================================================
