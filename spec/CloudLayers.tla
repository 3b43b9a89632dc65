----------------------------- MODULE CloudLayers ------------------------------
(* Cloud boundaries of a time-height scene.  A cell is <<t, z>>.  Cells of   *)
(* the mask that touch along time or height form features; features of at    *)
(* most MaxSize cells are removed one by one; the base (top) of a profile is *)
(* the lowest (highest) cell left in it.                                     *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS NTimes, NGates, MaxSize
VARIABLES mask,     \* the cells classified as cloud
          todo,     \* cells whose feature has not been looked at
          kept      \* cells of features that are kept

Neighbours(p) == {<<p[1] - 1, p[2]>>, <<p[1] + 1, p[2]>>, <<p[1], p[2] - 1>>, <<p[1], p[2] + 1>>}

RECURSIVE Grow(_, _, _)
(* cells of M connected with S, F being the cells of S added last            *)
Grow(M, S, F) ==
    LET N == (UNION {Neighbours(p) : p \in F} \cap M) \ S
    IN IF N = {} THEN S ELSE Grow(M, S \cup N, N)
Feature(M, p) == Grow(M, {p}, {p})

RECURSIVE KeepLarge(_, _, _, _)
(* the cells of M that belong to features larger than size                   *)
KeepLarge(M, rest, acc, size) ==
    IF rest = {} THEN acc
    ELSE LET p == CHOOSE x \in rest : TRUE
             f == Feature(M, p)
         IN KeepLarge(M, rest \ f, IF Cardinality(f) > size THEN acc \cup f ELSE acc, size)
Large(M, size) == KeepLarge(M, M, {}, size)

Gates(K, t) == {p[2] : p \in {p \in K : p[1] = t}}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Base(K, t) == IF Gates(K, t) = {} THEN 0 ELSE MinOf(Gates(K, t))
Top(K, t) == IF Gates(K, t) = {} THEN 0 ELSE MaxOf(Gates(K, t))

Cells == (1..NTimes) \X (1..NGates)
Init == mask \in SUBSET Cells /\ todo = mask /\ kept = {}
Examine(p) ==
    LET f == Feature(mask, p)
    IN /\ todo' = todo \ f
       /\ kept' = IF Cardinality(f) > MaxSize THEN kept \cup f ELSE kept
       /\ UNCHANGED mask
Next == \E p \in todo : Examine(p)
Spec == Init /\ [][Next]_<<mask, todo, kept>>

Sound == kept \subseteq mask
OrderFree == todo = {} => kept = Large(mask, MaxSize)
Bracket == todo = {} => \A p \in kept : Base(kept, p[1]) <= p[2] /\ p[2] <= Top(kept, p[1])
(* nothing is kept in isolation                                              *)
NoSmall == \A p \in kept : Cardinality(Feature(mask, p)) > MaxSize
=============================================================================
