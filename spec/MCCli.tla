-------------------------------- MODULE MCCli --------------------------------
(* Every request of a few products on every portal that has or lacks the files: *)
(* one task per step.                                                           *)
EXTENDS Cli
CONSTANTS Products, Portals, Olds
VARIABLES w, todo, s
vars == <<w, todo, s>>
I(pid, id, rank) == [pid |-> pid, short |-> pid, id |-> id, rank |-> rank]
Insts == <<I("P1", "mira-35", 1), I("P2", "rpg-fmcw-94", 2), I("P3", "hatpro", 3), I("P4", "chm15k", 4)>>
Raw(file, pid) == [file |-> file, pid |-> pid, site |-> "s", date |-> "d", status |-> "uploaded", lv0 |-> FALSE, lwp |-> TRUE, nc |-> FALSE]
Raws == {Raw("r1", "P1"), Raw("r2", "P2"), Raw("h", "P3")}
G(p, pid, model, file, geo) == [p |-> p, pid |-> pid, model |-> model, site |-> "s", date |-> "d", file |-> file, geo |-> geo]
AllPortal == <<G("radar", "P1", "", "e_s_mira-35_P1.nc", FALSE), G("radar", "P2", "", "e_s_rpg-fmcw-94_P2.nc", FALSE), G("lidar", "P4", "", "e_s_chm15k_P4.nc", FALSE),
               G("mwr", "P3", "", "e_s_hatpro_P3.nc", FALSE), G("model", "", "ecmwf", "e_s_ecmwf.nc", FALSE), G("categorize", "", "", "e_s_categorize.nc", TRUE)>>
Entries == <<[p |-> "radar", ids |-> <<"mira-35", "rpg-fmcw-94">>, sources |-> <<>>], [p |-> "mwr", ids |-> <<"hatpro">>, sources |-> <<>>],
             [p |-> "lidar", ids |-> <<"chm15k">>, sources |-> <<>>],
             [p |-> "categorize", ids |-> <<>>, sources |-> <<"radar", "lidar">>], [p |-> "iwc", ids |-> <<>>, sources |-> <<"categorize">>],
             [p |-> "epsilon-radar", ids |-> <<>>, sources |-> <<"radar", "model">>], [p |-> "l3-cf", ids |-> <<>>, sources |-> <<>>], [p |-> "l3-iwc", ids |-> <<>>, sources |-> <<>>]>>
OldFiles == <<<<"s/d/instrument/e_s_mira-35_P1.nc", "old">>, <<"s/d/geophysical/e_s_categorize.nc", "old">>, <<"s/d/geophysical/e_s_iwc.nc", "old">>>>
Sub(q, S) == SelectSeq(q, LAMBDA x : x \in S)
World(P, pref, raws, av, old, force, nocat, dl) ==
    [products |-> [i \in DOMAIN P |-> [p |-> P[i], bracket |-> ""]], prefs |-> pref, pids |-> <<"P1", "P2", "P3", "P4">>, insts |-> Insts, catalog |-> Entries,
     rawfiles |-> SetToSeq(raws), portal |-> Sub(AllPortal, av), old |-> Sub(OldFiles, old), oldraw |-> <<>>, site |-> "s", date |-> "d", ymd |-> "e",
     model |-> "", answer |-> 0, force |-> force, dl |-> dl, nocat |-> nocat, nol3 |-> <<>>, options |-> "", plot |-> FALSE]
AllOf(q) == {q[i] : i \in DOMAIN q}
QProducts == {<<"radar">>, <<"mwr", "radar", "categorize", "iwc", "l3-iwc">>, <<"l3-cf", "categorize", "epsilon-radar">>, <<"iwc", "radar", "l3-cf">>, <<"radar", "categorize", "mwr">>}
QPortals == SUBSET {AllPortal[i] : i \in {2, 4, 5, 6}}
QOlds == {{}, AllOf(OldFiles)}
TProducts == {SetToSeq(S) : S \in SUBSET {"radar", "mwr", "categorize", "iwc", "epsilon-radar", "l3-cf"}}
TPortals == QPortals
TOlds == {{}, AllOf(OldFiles)}
Init == /\ w \in {World(P, pref, raws, av, old, force, nocat, dl) :
                  P \in Products, pref \in {<<>>, <<[p |-> "radar", values |-> <<"P2">>]>>}, raws \in SUBSET Raws, av \in Portals, old \in Olds,
                  force \in BOOLEAN, nocat \in {FALSE}, dl \in {FALSE}}
                 \cup {World(P, <<>>, raws, av, {}, FALSE, nocat, dl) : P \in Products, raws \in SUBSET Raws, av \in Portals, nocat \in BOOLEAN, dl \in BOOLEAN}
        /\ todo = Tasks(w) /\ s = Begin(w)
Next == /\ todo # <<>> /\ s' = Do(w, s, todo[1]) /\ todo' = Tail(todo) /\ UNCHANGED w
Spec == Init /\ [][Next]_vars
Made == {s.calls[i].p : i \in DOMAIN s.calls}
Given == UNION {UNION {s.calls[i].inputs[r] : r \in DOMAIN s.calls[i].inputs} : i \in DOMAIN s.calls}
Before(k) == {Content(s.calls[j].tool, s.calls[j].out) : j \in {x \in DOMAIN s.calls : x < k}}
IsMade(c) == \E i \in DOMAIN s.calls : Content(s.calls[i].tool, s.calls[i].out) = c
Once == Cardinality(Made) = Len(s.calls)
NeverAhead == \A k \in DOMAIN s.calls : \A r \in DOMAIN s.calls[k].inputs : \A c \in s.calls[k].inputs[r] : IsMade(c) => c \in Before(k)
OnlyAsked == Made \subseteq {w.products[i].p : i \in DOMAIN w.products}
DownloadOnly == w.dl => s.calls = <<>>
(* what was made in this run is what later steps get                           *)
Fresh == \A k \in DOMAIN s.calls : \A r \in DOMAIN s.calls[k].inputs :
            \A j \in DOMAIN s.calls : (j < k /\ s.calls[j].p = r) => s.calls[k].inputs[r] = {Content(s.calls[j].tool, s.calls[j].out)}
Forced == w.force => "old" \notin Given
Kept == ~w.force => \A i \in DOMAIN w.old : s.disk[w.old[i][1]] = "old" \/ \E k \in DOMAIN s.calls : s.calls[k].out = w.old[i][1]
(* an unavailable product changes nothing for the others                       *)
Without(p) == [w EXCEPT !.products = SelectSeq(@, LAMBDA x : x.p # p)]
Independent == (todo = <<>> /\ ~w.nocat) =>
    \A i \in DOMAIN w.products : LET p == w.products[i].p IN
        (p \notin Made /\ ~(p = "categorize" /\ w.prefs # <<>>)) => AllOf(End(Without(p)).calls) = AllOf(s.calls)
(* nothing that could be made is left out                                      *)
Complete == (todo = <<>> /\ ~w.dl) => \A i \in DOMAIN w.products : LET p == w.products[i].p
                                             has(x) == \E k \in DOMAIN w.portal : w.portal[k].p = x IN
    /\ (p = "categorize" /\ has("model") /\ ~w.nocat) => p \in Made
    /\ (p = "iwc" /\ (has("categorize") \/ "categorize" \in Made)) => p \in Made
    /\ (p = "epsilon-radar" /\ has("model") /\ (has("radar") \/ "radar" \in Made)) => p \in Made
    /\ (p = "l3-cf" /\ has("model") /\ (has("categorize") \/ "categorize" \in Made)) => p \in Made
    /\ (p = "mwr" /\ \E k \in DOMAIN w.rawfiles : w.rawfiles[k].pid = "P3") => p \in Made
=============================================================================
