------------------------------- MODULE CliTrace -------------------------------
(* One run of the command line on a made-up data portal.  e.w: the request and  *)
(* the portal (Cli);  e.calls: what was processed, with contents of the inputs   *)
(* at the time;  e.disk, e.raw: files of the output and input folders after the  *)
(* run;  e.plots: figures drawn (content of the drawn file);  e.bad: malformed   *)
(* preferences                                                                   *)
EXTENDS TraceBase, Cli
AsSet(q) == {q[i] : i \in DOMAIN q}
Expected(w) == End(w)
Key(c) == <<c.tool, c.out>>
SameCall(c, o) ==
    /\ DOMAIN c.inputs \subseteq DOMAIN o.inputs
    /\ \A r \in DOMAIN c.inputs :
         IF r = "raw" /\ c.extra.shape = "folder" THEN c.inputs[r] \subseteq AsSet(o.inputs[r])
         ELSE c.inputs[r] = AsSet(o.inputs[r]) /\ Len(o.inputs[r]) = Cardinality(c.inputs[r])
    /\ c.tool = "generate_categorize" => DOMAIN o.inputs \cap Roles = DOMAIN c.inputs
    /\ "raw" \in DOMAIN c.inputs => o.shape = c.extra.shape
Value(q, k) == LET i == First(q, LAMBDA x : x[1] = k) IN IF i = 0 THEN "None" ELSE q[i][2]
CalOf(w, pid) == LET i == First(w.cal, LAMBDA x : x.pid = pid) IN IF i = 0 THEN <<>> ELSE w.cal[i].data
Meta(w, c, o) ==
    LET kw == o.meta
        cal == CalOf(w, c.extra.pid)
        i == Inst(w, c.extra.pid)
    IN /\ \A k \in DOMAIN w.siteinfo : Value(kw, w.siteinfo[k][1]) = w.siteinfo[k][2]
       /\ o.date = w.date
       /\ CASE c.tool = "mira2nc" -> Value(kw, "range_correction_factor") = Value(cal, "range_correction_factor")
            [] c.tool = "pollyxt2nc" -> Value(kw, "snr_limit") = IF Value(cal, "snr_limit") = "None" THEN "25" ELSE Value(cal, "snr_limit")
            [] c.tool = "ceilo2nc" -> Value(kw, "model") = i.id /\ (i.id # "cl61d" => Value(kw, "calibration_factor") = Value(cal, "calibration_factor"))
            [] c.tool = "hatpro2l1c" -> /\ \A k \in DOMAIN cal : cal[k][1] # "retrieval_coefficients" => Value(kw, cal[k][1]) = cal[k][2]
                                        /\ o.coefs = w.links /\ o.links = w.links
            [] OTHER -> TRUE
L3Meta(w, c, o) == Value(o.meta, "obs") = c.extra.obs /\ Value(o.meta, "model") = c.extra.model
                   /\ Value(o.meta, "site_name") = Value(w.siteinfo, "name")
                   /\ Value(o.meta, "model_name") = (LET i == First(w.models, LAMBDA m : m[1] = c.extra.model) IN IF i = 0 THEN c.extra.model ELSE w.models[i][2])
Options(c, o) == o.options = c.extra.options
Observed(e, c) == e.calls[First(e.calls, LAMBDA o : Key(o) = Key(c))]
(* every processed product is drawn once, when asked                            *)
Drawn(w, s) == IF w.plot THEN {<<s.calls[i].p, Content(s.calls[i].tool, s.calls[i].out)>> : i \in DOMAIN s.calls} ELSE {}
Judge(e) ==
    IF e.bad THEN C("REJECTED", e.status # "ok" /\ e.calls = <<>>) ELSE
    IF e.status # "ok" THEN {"WORKS"} ELSE
    LET w == e.w
        s == Expected(w)
        D == DOMAIN s.calls
        same == {Key(s.calls[i]) : i \in D} = {Key(e.calls[i]) : i \in DOMAIN e.calls}
        pairs == [i \in D |-> <<s.calls[i], Observed(e, s.calls[i])>>]
    IN C("STEPS", same) \cup C("ONCE", Len(e.calls) = Cardinality({Key(e.calls[i]) : i \in DOMAIN e.calls}))
       \cup C("FILES", e.disk = <<>> \/ AsSet(e.disk) = {<<p, s.disk[p]>> : p \in DOMAIN s.disk})
       \cup C("DOWNLOADS", \A n \in DOMAIN s.raw : \E i \in DOMAIN e.raw : e.raw[i] = <<n, s.raw[n]>>)
       \cup (IF ~same THEN {} ELSE
             C("INPUTS", \A i \in D : SameCall(pairs[i][1], pairs[i][2]))
             \cup C("METADATA", \A i \in D : "raw" \in DOMAIN s.calls[i].inputs => Meta(w, pairs[i][1], pairs[i][2]))
             \cup C("L3_NAMES", \A i \in D : s.calls[i].tool = "process_L3_day_product" => L3Meta(w, pairs[i][1], pairs[i][2]))
             \cup C("OPTIONS", \A i \in D : s.calls[i].tool = "generate_categorize" => Options(pairs[i][1], pairs[i][2]))
             \cup C("PLOTS", AsSet(e.plots) = Drawn(w, s) /\ Len(e.plots) = Cardinality(Drawn(w, s))))
VARIABLE l
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ Report(l, Judge(Trace[l]))
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
