-------------------------------- MODULE Cascade --------------------------------
(* The decisions of the classification that depend on the surroundings of a    *)
(* pixel, step by step and exactly.  A pixel of profile x (1..n) and gate y     *)
(* (1..m) is the number 64 x + y; what holds for pixels is a set of them.       *)
(*  i.z, i.b     radar echo, lidar signal;  i.frz freezing;  i.mlt melting      *)
(*  i.drop       liquid layers;  i.ins insects likely;  i.clut still echoes     *)
(*  i.cold       lidar ice;  i.dom echo of liquid only                          *)
(*  i.scold, i.mild  below -38 degC, above -10 degC;  i.hil high LDR            *)
(*  i.allow      profiles where the water path does not rule out melting        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC
P(x, y) == x * 64 + y
X(p) == p \div 64
Y(p) == p % 64
Around(p, n, m) == {q \in {p - 64, p + 64, p - 1, p + 1} : X(q) \in 1..n /\ Y(q) \in 1..m /\ (X(q) = X(p) \/ Y(q) = Y(p))}
Grow(S, n, m) == S \cup UNION {Around(p, n, m) : p \in S}
(* pixels at or above a pixel of S in the same profile *)
AtOrAbove(S, m) == UNION {P(X(p), Y(p))..P(X(p), m) : p \in {q \in S : q - 1 \notin S}}
RECURSIVE Flood(_, _, _, _, _)
Flood(S, edge, seen, n, m) ==
    IF edge = {} THEN seen
    ELSE LET next == TLCEval((UNION {Around(p, n, m) : p \in edge} \cap S) \ seen) IN Flood(S, next, TLCEval(seen \cup next), n, m)
RECURSIVE Regions(_, _, _)
Regions(S, n, m) ==
    IF S = {} THEN {}
    ELSE LET p == CHOOSE q \in S : TRUE
             r == TLCEval(Flood(S, {p}, {p}, n, m))
         IN {r} \cup Regions(TLCEval(S \ r), n, m)
(* Melting that was not seen: drizzle with ice or supercooled droplets on top.  *)
Undetected(i, s) ==
    LET dry == s.fal \ i.drop
        super == i.drop \cap i.frz
        ice == (dry \cap i.frz) \cup super
        drizzle == (dry \ i.frz) \ super
    IN {p \in ice : p - 1 \in drizzle /\ Y(p) > 1 /\ X(p) \in i.allow}
(* Insects at and above melting are ice; those next to a melting pixel with     *)
(* more than five falling pixels below it are drizzle.                          *)
NextToMelting(s, orig, p, n, m) ==
    LET x == X(p)
        y == Y(p)
        below == {q \in P(x, IF y > 5 THEN y - 5 ELSE 1)..(p - 1) : q \in orig}
        fal1 == IF below \subseteq s.fal THEN s.fal ELSE s.fal \cup below
        ins1 == IF below \cap s.ins = {} THEN s.ins ELSE s.ins \ below
        n5 == Cardinality({q \in P(x, 1)..(p - 1) : q \in s.fal})
        rows == {r \in (IF x > 5 THEN x - 5 ELSE 1)..(IF x + 5 > n THEN n ELSE x + 5) : P(r, y) \in orig}
        side == UNION {{P(r, j) : j \in (IF y = 1 THEN 1 ELSE y - 1)..(IF y = m THEN m ELSE y + 1)} : r \in rows}
    IN IF n5 <= 5 THEN s
       ELSE [s EXCEPT !.fal = fal1 \cup (side \cap orig), !.ins = ins1 \ side]
FilterInsects(s, n, m) ==
    LET up == s.ins \cap AtOrAbove(s.mlt, m)
        s1 == TLCEval([s EXCEPT !.fal = s.fal \cup up, !.ins = s.ins \ up])
        orig == s1.ins
    IN IF orig = {} THEN s1
       ELSE FoldLeft(LAMBDA acc, p : TLCEval(NextToMelting(acc, orig, p, n, m)), s1, SetToSortSeq(s.mlt, LAMBDA a, b : a < b))
Again(i, s, n, m) == TLCEval(FilterInsects(TLCEval([s EXCEPT !.mlt = s.mlt \cup Undetected(i, s)]), n, m))
(* The whole of it; speck: largest region that is noise, big: smallest region    *)
(* that is surely cloud.                                                         *)
Decide(i, n, m, speck, big) ==
    LET fal0 == ((i.z \ (i.clut \cup i.ins)) \ i.dom) \cup i.cold
        s0 == TLCEval([fal |-> fal0, ins |-> i.ins, mlt |-> i.mlt])
        s5 == Again(i, Again(i, Again(i, Again(i, Again(i, s0, n, m), n, m), n, m), n, m), n, m)
        aer0 == (i.b \ s5.fal) \ i.drop
        frozen == i.drop \cap i.scold
        drop == i.drop \ frozen
        fal1 == TLCEval(s5.fal \cup frozen)
        high == TLCEval({p \in fal1 \cap i.frz : p \in i.hil /\ p \in i.mild /\ p \notin drop /\ p \notin s5.mlt} \ AtOrAbove(s5.mlt, m))
        ins2 == s5.ins \cup high
        fal2 == TLCEval(fal1 \ high)
        aer2 == aer0 \cup (high \cap i.b)
        huge == TLCEval(UNION {r \in Regions(fal2, n, m) : Cardinality(r) >= big})
        inside == TLCEval(ins2 \cap i.frz \cap Grow(Grow(huge, n, m), n, m))
        ins3 == ins2 \ inside
        fal3 == TLCEval(fal2 \cup inside)
        aer3 == aer2 \ inside
        noise == TLCEval(UNION {r \in Regions(fal3, n, m) : Cardinality(r) <= speck})
        lone == noise \ drop
        ins4 == ins3 \cup (lone \ i.frz)
        fal4 == TLCEval(fal3 \ noise)
        aer4 == aer3 \cup (lone \cap i.b)
        wrong == TLCEval(i.clut \cap Grow(drop \cup fal4, n, m))
    IN [drop |-> drop, fal |-> fal4 \cup wrong, frz |-> i.frz, mlt |-> s5.mlt, aer |-> aer4 \ wrong, ins |-> ins4 \ wrong, clut |-> i.clut \ wrong]
=============================================================================
