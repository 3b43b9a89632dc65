----------------------------- MODULE ConcatJudge -----------------------------
(* Judges real calls of concatenate_files.  Event:                           *)
(*  files  : the abstract files in call order, as written to disk            *)
(*  keep   : [all, names]   ignore : [names]   newattrs : name -> value      *)
(*  status : "ok" or exception name     returned : file names in order       *)
(*  out    : [ntime, grid, vars : name -> [kind, rows, unit], attrs]         *)
EXTENDS TraceBase
M == INSTANCE Concat WITH Universe <- {}, Names <- {}, input <- <<>>, pending <- <<>>,
                          out <- <<>>, phase <- ""

SeqSet(s) == {s[i] : i \in 1..Len(s)}

RowsOk(first, refs, k, rows) ==
    \A r \in 1..Len(refs) :
        LET f == refs[r][1]
            i == refs[r][2]
            n == CASE M!OutKind(first.vars[k].kind) = "t" -> 1
                   [] OTHER -> Len(M!SrcRow(first, k, 1))
        IN /\ Len(rows[r]) = n
           /\ \A j \in 1..n : rows[r][j] \in M!Allowed(first, f, k, i, j)

Judge(e) ==
    LET fs == M!Sorted(e.files)
    IN IF fs = <<>> THEN C("NO_VALID_FILES_IS_AN_ERROR", e.status = "ValidTimeStampError")
       ELSE IF fs[1].broken THEN C("UNREADABLE_FIRST_FILE_IS_AN_ERROR", e.status # "ok")
       ELSE IF e.status # "ok" THEN {"RAISED_" \o e.status}
       ELSE
       LET first == fs[1]
           us == M!Usable(fs)
           refs == M!Refs(us)
           want == M!OutVars(first, e.keep, SeqSet(e.ignore))
           have == DOMAIN e.out.vars
           data == {k \in want \cap have : first.vars[k].kind # "axis"}
       IN C("RETURNED_FILES", e.returned = [i \in 1..Len(us) |-> us[i].name])
          \cup C("VARIABLES", want = have)
          \cup C("PROFILE_COUNT", e.out.ntime = Len(refs))
          \cup C("RANGE_AXIS", "range" \in have => e.out.grid = first.grid)
          \cup C("KINDS", \A k \in data : e.out.vars[k].kind = M!OutKind(first.vars[k].kind))
          \cup (IF e.out.ntime # Len(refs) THEN {} ELSE
                UNION {C("DATA_" \o first.vars[k].kind,
                         /\ Len(e.out.vars[k].rows) = Len(refs)
                         /\ RowsOk(first, refs, k, e.out.vars[k].rows)) :
                       k \in {q \in data : e.out.vars[q].kind = M!OutKind(first.vars[q].kind)}})
          \cup C("UNITS", \A k \in want \cap have : e.out.vars[k].unit = first.vars[k].unit)
          \cup C("GLOBAL_ATTRIBUTES",
                 /\ \A a \in DOMAIN e.newattrs : a \in DOMAIN e.out.attrs /\ e.out.attrs[a] = e.newattrs[a]
                 /\ \A a \in DOMAIN first.attrs : a \in DOMAIN e.newattrs
                        \/ (a \in DOMAIN e.out.attrs /\ e.out.attrs[a] = first.attrs[a])
                 /\ DOMAIN e.out.attrs \subseteq (DOMAIN e.newattrs \cup DOMAIN first.attrs))
=============================================================================
