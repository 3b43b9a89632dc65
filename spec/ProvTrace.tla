------------------------------- MODULE ProvTrace ------------------------------
(* ev = "made": one processing step.                                         *)
(*  inputs: [uuid (0: none), model, history: <<record, time>> in file order, *)
(*          sources, pids]                                                   *)
(*  own: [type, ontime] of the first record of the output; rest: the others  *)
(*  want: [type, filetype, location, date, requested uuid (0: none), sources *)
(*        ("lines" of the inputs, or "names" of the files)]                  *)
(*  uuid: [file, returned, seen: identifiers already in use];  listed: the   *)
(*  identifiers in source_file_uuids, in order                               *)
(* Times are minutes, MALFORMED where a record has none.                     *)
(* ev = "attrs": source attributes of the variables of a categorize file     *)
EXTENDS TraceBase
MALFORMED == -1
SeqSet(s) == {s[i] : i \in 1..Len(s)}
Passed(s) == IF s.history = <<>> THEN {} ELSE IF s.model THEN {s.history[Len(s.history)]} ELSE SeqSet(s.history)
Expected(e) == UNION {Passed(e.inputs[i]) : i \in 1..Len(e.inputs)}
Known(e) == {e.inputs[i].uuid : i \in 1..Len(e.inputs)} \ {0}
All(e, F(_)) == UNION {SeqSet(F(e.inputs[i])) : i \in 1..Len(e.inputs)}
Src(x) == x.sources
Pid(x) == x.pids
VarsOf(k) == CASE k = "radar" -> {"v", "width", "v_sigma", "ldr", "Z", "sldr", "radar_frequency", "nyquist_velocity"}
               [] k = "lidar" -> {"beta", "lidar_wavelength"}
               [] k = "mwr" -> {"lwp"}
               [] k = "model" -> {"uwind", "vwind", "Tw", "q", "pressure", "temperature"}
               [] OTHER -> {}
Kinds == {"radar", "lidar", "mwr", "model"}
OriginOf(e, v) == IF v = "rainfall_rate" THEN (IF e.disdrometer THEN "disdrometer" ELSE "radar")
                  ELSE IF \E k \in Kinds : v \in VarsOf(k) THEN CHOOSE k \in Kinds : v \in VarsOf(k) ELSE "none"
VarOK(e, x) == LET o == OriginOf(e, x.name) IN o = "none" \/ (x.source = e.srcs[o].source /\ x.pid = e.srcs[o].pid)
Judge(e) ==
    IF e.ev = "attrs" THEN
        C("VARIABLE_SOURCE", \A i \in 1..Len(e.vars) : VarOK(e, e.vars[i]))
    ELSE
    C("WORKS", e.status = "ok")
    \cup IF e.status # "ok" THEN {} ELSE
    C("OWN_RECORD_FIRST", e.own.type = e.want.type /\ e.own.ontime)
    \cup C("HISTORY_COMPLETE", Expected(e) \subseteq SeqSet(e.rest))
    \cup C("NOTHING_ELSE", SeqSet(e.rest) \subseteq Expected(e))
    \cup C("NO_DUPLICATES", Cardinality(SeqSet(e.rest)) = Len(e.rest))
    \cup C("NEWEST_FIRST", \A i, j \in 1..Len(e.rest) : (i < j /\ e.rest[i][2] # MALFORMED /\ e.rest[j][2] # MALFORMED) => e.rest[i][2] >= e.rest[j][2])
    \cup C("SOURCE_UUIDS", e.raw \/ (SeqSet(e.listed) = Known(e) /\ Cardinality(SeqSet(e.listed)) = Len(e.listed)))
    \cup C("RETURNED_UUID", e.uuid.returned = e.uuid.file)
    \cup C("REQUESTED_UUID", e.want.uuid # 0 => e.uuid.file = e.want.uuid)
    \cup C("FRESH_UUID", e.want.uuid = 0 => (e.uuid.file > 0 /\ e.uuid.file \notin SeqSet(e.uuid.seen)))
    \cup C("TYPE", e.filetype = e.want.filetype)
    \cup C("SITE", e.location = e.want.location)
    \cup C("DATE", e.date = e.want.date)
    \cup C("SOURCES", CASE e.want.sources = "lines" -> SeqSet(e.sources) = All(e, Src) /\ Cardinality(SeqSet(e.sources)) = Len(e.sources)
                        [] e.want.sources = "names" -> SeqSet(e.sources) = SeqSet(e.names)
                        [] OTHER -> TRUE)
    \cup C("INSTRUMENTS", e.want.pids => SeqSet(e.pids) = All(e, Pid))
VARIABLE l
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ Report(l, Judge(Trace[l]))
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
