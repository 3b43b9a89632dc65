----------------------------- MODULE ProductFile -----------------------------
(* C24: how a product file comes into being.  Computed variables are written  *)
(* one after another into a file of fixed dimensions, then variables of the   *)
(* source file are carried over, then the file is labelled.                   *)
(*                                                                            *)
(* A cell is a small number or MISS.  The file stores numbers only: a missing *)
(* cell is stored as the fill value of the variable, which a variable has if  *)
(* any of its cells could be missing; a reader turns fill values back into    *)
(* missing ones.  A single number along time is repeated.                     *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Names, Sizes        \* variable names; sizes of the dimension
MISS == -1
FILLCODE == 99
Cells == {0, 1, MISS}

(* A computed variable: maskable or not, along the dimension or a single number *)
Arrays(n) == {[maskable |-> mk, scalar |-> FALSE, bad |-> FALSE, cells |-> c] : mk \in BOOLEAN, c \in [1..n -> Cells]}
             \cup {[maskable |-> mk, scalar |-> TRUE, bad |-> FALSE, cells |-> <<c>>] : mk \in BOOLEAN, c \in Cells}
             \cup {[maskable |-> FALSE, scalar |-> FALSE, bad |-> TRUE, cells |-> <<0, 0, 0>>]}
Sound(a, n) == /\ a.bad \/ a.scalar \/ Len(a.cells) = n
               /\ a.maskable \/ \A i \in 1..Len(a.cells) : a.cells[i] # MISS
Expand(a, n) == IF a.scalar THEN [i \in 1..n |-> a.cells[1]] ELSE a.cells
Stored(a, n) == [i \in 1..n |-> IF Expand(a, n)[i] = MISS THEN FILLCODE ELSE Expand(a, n)[i]]
Readback(s) == [i \in 1..Len(s) |-> IF s[i] = FILLCODE THEN MISS ELSE s[i]]

VARIABLES pc, n, computed, source, keys, todo, file, labelled
vars == <<pc, n, computed, source, keys, todo, file, labelled>>
None == [origin |-> "none", stored |-> <<>>]
Init == /\ pc = "write" /\ n \in Sizes
        /\ computed \in [Names -> {[maskable |-> FALSE, scalar |-> TRUE, bad |-> TRUE, cells |-> <<>>]} \cup {a \in Arrays(n) : Sound(a, n)}]
        /\ source \in SUBSET Names /\ keys \in SUBSET Names
        /\ todo = {x \in Names : Len(computed[x].cells) > 0}
        /\ file = [x \in Names |-> None] /\ labelled = FALSE
Own == {x \in Names : Len(computed[x].cells) > 0}
Write(x) == /\ pc = "write" /\ x \in todo /\ ~computed[x].bad
            /\ file' = [file EXCEPT ![x] = [origin |-> "own", stored |-> Stored(computed[x], n)]]
            /\ todo' = todo \ {x}
            /\ UNCHANGED <<pc, n, computed, source, keys, labelled>>
(* An array that does not fit is an error, never cut or repeated. *)
Refuse(x) == /\ pc = "write" /\ x \in todo /\ computed[x].bad
             /\ pc' = "error" /\ UNCHANGED <<n, computed, source, keys, todo, file, labelled>>
ToCopy == /\ pc = "write" /\ todo = {} /\ pc' = "copy" /\ UNCHANGED <<n, computed, source, keys, todo, file, labelled>>
Copy(x) == /\ pc = "copy" /\ x \in keys \cap source /\ file[x].origin = "none"
           /\ file' = [file EXCEPT ![x] = [origin |-> "source", stored |-> [i \in 1..n |-> 1]]]
           /\ UNCHANGED <<pc, n, computed, source, keys, todo, labelled>>
Label == /\ pc = "copy" /\ \A x \in keys \cap source : file[x].origin # "none"
         /\ pc' = "done" /\ labelled' = TRUE /\ UNCHANGED <<n, computed, source, keys, todo, file>>
Next == (\E x \in Names : Write(x) \/ Refuse(x) \/ Copy(x)) \/ ToCopy \/ Label \/ (pc \in {"done", "error"} /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Ends == <>(pc \in {"done", "error"})
ErrorIffMisfit == /\ pc = "error" => \E x \in Own : computed[x].bad
                  /\ pc = "done" => \A x \in Own : ~computed[x].bad
ReadsBack == pc = "done" => \A x \in Own : Readback(file[x].stored) = Expand(computed[x], n)
OwnWins == pc = "done" => \A x \in Own : file[x].origin = "own"
CopiedIfAsked == pc = "done" => \A x \in Names \ Own : (file[x].origin = "source") = (x \in keys \cap source)
=============================================================================
