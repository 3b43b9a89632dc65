----------------------------- MODULE BundleTrace -----------------------------
(* Judges real calls of bundle_netcdf_files ("bundle"),                      *)
(* concatenate_text_files ("text") and truncate_netcdf_file ("truncate").    *)
EXTENDS ConcatJudge
B == INSTANCE Bundle WITH Pool <- {}, MaxFiles <- 0, todo <- <<>>, cursor <- 0, chosen <- <<>>, given <- <<>>

Bookkeeping == <<"minimum", "maximum", "number_integrated_samples", "Min_LWP", "Max_LWP">>

JudgeBundle(e) ==
    IF Len(e.files) = 1
    THEN C("SINGLE_FILE_COPIED", e.status = "ok" /\ e.identical)
         \cup C("RETURNED", e.returned = <<e.files[1].name>>)
    ELSE LET sel == B!Selected(e.files)
             names == {sel[i].name : i \in 1..Len(sel)}
         IN IF ~e.files[1].readable THEN C("UNREADABLE_FIRST_FILE", e.status # "ok")
            ELSE Judge([files |-> sel, keep |-> e.keep, ignore |-> Bookkeeping,
                        newattrs |-> <<>>, status |-> e.status,
                        returned |-> [i \in 1..Len(M!Usable(M!Sorted(sel))) |-> M!Sorted(sel)[i].name],
                        out |-> e.out])
                 \cup C("SELECTED_FILES", e.status = "ok" =>
                        /\ Len(e.returned) = Cardinality(names)
                        /\ {e.returned[i] : i \in 1..Len(e.returned)} = names)

JudgeText(e) ==
    C("TEXT_BYTES", e.status = "ok" /\ e.out = B!Flat(e.parts))

JudgeTruncate(e) ==
    C("STATUS", e.status = "ok")
    \cup (IF e.status # "ok" THEN {} ELSE
          C("TRUNCATE_VARIABLES", DOMAIN e.after.vars = DOMAIN e.before.vars)
          \cup C("TRUNCATE_DATA", \A k \in DOMAIN e.before.vars \cap DOMAIN e.after.vars :
                  e.after.vars[k] =
                    [e.before.vars[k] EXCEPT !.rows = IF e.before.vars[k].timed
                                                      THEN B!Prefix(@, e.n) ELSE @])
          \cup C("TRUNCATE_ATTRS", e.after.attrs = e.before.attrs))

JudgeAny(e) == CASE e.ev = "bundle" -> JudgeBundle(e)
                 [] e.ev = "text" -> JudgeText(e)
                 [] e.ev = "truncate" -> JudgeTruncate(e)
VARIABLE l
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ Report(l, JudgeAny(Trace[l]))
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
