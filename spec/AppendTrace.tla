---------------------------- MODULE AppendTrace ----------------------------
(* Judges histories of real update_nc calls.  Events:                        *)
(*   [ev |-> "start", after]          a file was created with content after  *)
(*   [ev |-> "update", readable, new, returned, status, after]               *)
(* Content: [time : seq, vars : name -> [kind, rows]]; rows[i] belongs to    *)
(* profile i; kind "fixed" variables have no time dimension.                 *)
EXTENDS TraceBase
M == INSTANCE Append WITH Times <- {}, MaxLen <- 0, Steps <- 0, file <- <<>>, hist <- <<>>, ret <- 0

VARIABLES l, cur    \* cur: content of the file as the real code left it

RowSeq(content) == [i \in 1..Len(content.time) |-> [t |-> content.time[i], i |-> i]]

Fill(row) == [j \in 1..Len(row) |-> FILL]

Judge(e) ==
    IF e.ev = "start" THEN {}
    ELSE LET add == IF e.readable THEN M!Newer(RowSeq(cur), RowSeq(e.new)) ELSE <<>>
             n == Len(cur.time)
             m == Len(add)
             a == e.after
             Same(k) == \A i \in 1..n : a.vars[k].rows[i] = cur.vars[k].rows[i]
             Right(k) == \A i \in 1..m :
                 a.vars[k].rows[n + i] =
                    (IF k \in DOMAIN e.new.vars THEN e.new.vars[k].rows[add[i].i]
                     ELSE Fill(cur.vars[k].rows[1]))
             timed == {k \in DOMAIN cur.vars : cur.vars[k].kind # "fixed"}
             ok == DOMAIN a.vars = DOMAIN cur.vars
         IN (IF e.readable
             THEN C("STATUS_" \o e.status, e.status = "ok")
                  \cup C("RETURN_VALUE", e.status = "ok" => e.returned = (IF m = 0 THEN 0 ELSE 1))
             ELSE C("UNREADABLE_REPORTED_AS_SUCCESS", e.status # "ok" \/ e.returned = 0))
            \cup C("VARIABLES_CHANGED", ok)
            \cup C("PROFILE_COUNT", Len(a.time) = n + m)
            \cup C("TIME", a.time = cur.time \o [i \in 1..m |-> add[i].t])
            \cup (IF ~ok \/ Len(a.time) # n + m THEN {} ELSE
                  C("EXISTING_DATA_CHANGED", \A k \in DOMAIN cur.vars :
                        IF k \in timed THEN Same(k) ELSE a.vars[k].rows = cur.vars[k].rows)
                  \cup C("NEW_DATA_WRONG", \A k \in timed : Right(k)))

TraceInit == l = 1 /\ cur = [time |-> <<>>]
TraceNext == /\ l <= Len(Trace)
             /\ Report(l, Judge(Trace[l]))
             /\ l' = l + 1
             /\ cur' = Trace[l].after
TraceSpec == TraceInit /\ [][TraceNext]_<<l, cur>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
