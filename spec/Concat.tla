------------------------------- MODULE Concat -------------------------------
(* Concatenation of netCDF files along one dimension                         *)
(* (cloudnetpy.concat_lib.concatenate_files).                                *)
(*                                                                           *)
(* An abstract file is a record                                              *)
(*   [name  : number giving its place in the order of file names,            *)
(*    times : sequence of time stamps (its profiles),                        *)
(*    grid  : sequence of range gates,                                       *)
(*    broken: the header is readable but reading its data fails,             *)
(*    vars  : variable name -> [kind, data]]                                 *)
(* with kind "s" scalar, "t" (time), "r" (range), "tr" (time, range),        *)
(* "tc" (time, channel), "c" (channel).                                      *)
(* The code keeps an open output file and appends one source file at a time; *)
(* the machine below does the same: one Append action per source file.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

FILL == -999999

AbsV(x) == IF x < 0 THEN -x ELSE x

MaxGrid == 10000
ValidFile(f) == Len(f.times) > 0 /\ Len(f.grid) < MaxGrid

RECURSIVE SortByName(_)
SortByName(S) ==
    IF S = {} THEN <<>>
    ELSE LET m == CHOOSE f \in S : \A g \in S : f.name <= g.name
         IN <<m>> \o SortByName(S \ {m})

Sorted(files) == SortByName({files[i] : i \in {k \in 1..Len(files) : ValidFile(files[k])}})

(* Files that contribute profiles.                                           *)
Usable(fs) == SelectSeq(fs, LAMBDA f : ~f.broken)

(* Source columns that may supply target gate x: the nearest ones, or none   *)
(* when x lies outside of the source grid.                                   *)
Nearest(grid, x) ==
    LET lo == CHOOSE a \in {grid[k] : k \in 1..Len(grid)} : \A k \in 1..Len(grid) : a <= grid[k]
        hi == CHOOSE a \in {grid[k] : k \in 1..Len(grid)} : \A k \in 1..Len(grid) : a >= grid[k]
    IN IF x < lo \/ x > hi THEN {}
       ELSE {k \in 1..Len(grid) : \A m \in 1..Len(grid) : AbsV(grid[k] - x) <= AbsV(grid[m] - x)}

(* Values allowed in column j of the target grid for source profile `row`.   *)
Regridded(first, f, row, j) ==
    IF Len(first.grid) = Len(f.grid) THEN {row[j]}
    ELSE LET ks == Nearest(f.grid, first.grid[j])
         IN IF ks = {} THEN {FILL} ELSE {row[k] : k \in ks}

HasTime(kind) == kind \in {"t", "tr", "tc"}

(* Names of the variables of the output file.                                *)
OutVars(first, keep, ignore) ==
    {k \in DOMAIN first.vars :
        /\ k \notin ignore
        /\ \/ k = "time"
           \/ ~HasTime(first.vars[k].kind)
           \/ keep.all
           \/ \E i \in 1..Len(keep.names) : keep.names[i] = k}

(* Kind of an output variable: everything except the range axis gains time.  *)
OutKind(kind) ==
    CASE kind = "s" -> "t" [] kind = "r" -> "tr" [] kind = "c" -> "tc" [] OTHER -> kind

(* Width of an output row of variable k.                                     *)
SrcRow(f, k, i) ==
    LET v == f.vars[k]
    IN CASE v.kind = "s" -> <<v.data>>
         [] v.kind = "t" -> <<v.data[i]>>
         [] v.kind \in {"r", "c"} -> v.data
         [] v.kind \in {"tr", "tc"} -> v.data[i]

(* Set of values allowed for output variable k at profile i of file f,       *)
(* column j.                                                                 *)
Allowed(first, f, k, i, j) ==
    IF k \notin DOMAIN f.vars THEN {FILL}
    ELSE IF OutKind(first.vars[k].kind) = "tr"
         THEN Regridded(first, f, SrcRow(f, k, i), j)
         ELSE {SrcRow(f, k, i)[j]}

(* The concatenation as a sequence of <<file, profile>> references.          *)
RECURSIVE Refs(_)
Refs(fs) ==
    IF fs = <<>> THEN <<>>
    ELSE [i \in 1..Len(Head(fs).times) |-> <<Head(fs), i>>] \o Refs(Tail(fs))

-----------------------------------------------------------------------------
CONSTANTS Universe,      \* set of possible abstract files of one name
          Names          \* set of file names (numbers)

VARIABLES input,         \* the list of files in call order
          pending,       \* sorted valid files not yet written
          out,           \* <<file name, profile>> of each output row
          phase

vars == <<input, pending, out, phase>>

Orders == {p \in [1..Cardinality(Names) -> Names] : \A i, j \in 1..Cardinality(Names) : i # j => p[i] # p[j]}

InitConcat ==
    \E pick \in [Names -> Universe], o \in Orders :
        /\ input = [i \in 1..Cardinality(Names) |-> pick[o[i]] @@ [name |-> o[i]]]
        /\ pending = Sorted(input)
        /\ out = <<>>
        /\ phase = "run"

Append1 ==
    /\ phase = "run"
    /\ pending # <<>>
    /\ ~Head(pending).broken
    /\ out' = out \o [i \in 1..Len(Head(pending).times) |-> <<Head(pending).name, i>>]
    /\ pending' = Tail(pending)
    /\ UNCHANGED <<input, phase>>

(* A file whose data cannot be read contributes nothing at all...            *)
SkipBroken ==
    /\ phase = "run"
    /\ pending # <<>>
    /\ Head(pending).broken
    /\ Head(pending) # Sorted(input)[1]
    /\ pending' = Tail(pending)
    /\ UNCHANGED <<input, out, phase>>

(* ...except that an unreadable first file fails the whole call.             *)
FailFirst ==
    /\ phase = "run"
    /\ pending # <<>>
    /\ Head(pending).broken
    /\ Head(pending) = Sorted(input)[1]
    /\ phase' = "error"
    /\ UNCHANGED <<input, pending, out>>

Finish ==
    /\ phase = "run"
    /\ pending = <<>>
    /\ phase' = IF out = <<>> THEN "error" ELSE "done"
    /\ UNCHANGED <<input, pending, out>>

NextConcat == Append1 \/ SkipBroken \/ FailFirst \/ Finish
SpecConcat == InitConcat /\ [][NextConcat]_vars

Count(f) == Len(f.times)
InOrder == \A a, b \in 1..Len(out) : a < b =>
    \/ out[a][1] < out[b][1]
    \/ out[a][1] = out[b][1] /\ out[a][2] < out[b][2]
Complete == phase = "done" =>
    \A x \in 1..Len(input) : ValidFile(input[x]) /\ ~input[x].broken =>
        \A i \in 1..Count(input[x]) :
            Cardinality({r \in 1..Len(out) : out[r] = <<input[x].name, i>>}) = 1
NothingElse == \A r \in 1..Len(out) : \E x \in 1..Len(input) :
    input[x].name = out[r][1] /\ out[r][2] \in 1..Count(input[x]) /\ ~input[x].broken
ErrorIff == phase = "error" => out = <<>> /\
    \/ \A x \in 1..Len(input) : ~ValidFile(input[x])
    \/ Sorted(input)[1].broken
AppendOnly == [][Len(out') >= Len(out) /\ SubSeq(out', 1, Len(out)) = out]_vars
=============================================================================
