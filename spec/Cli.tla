--------------------------------- MODULE Cli ---------------------------------
(* One run of the command line.  The request and everything the data portal     *)
(* has (w) decide the tasks; each task takes the state s of the run             *)
(*   made   product -> path of the file made (or fetched for categorize)        *)
(*   disk   path -> content of the file in the output folder                    *)
(*   raw    name -> content of a raw file in the input folder                   *)
(*   calls  what was processed, from which contents, to which path              *)
(* to the next state.                                                           *)
(*  w.products  <<[p, bracket]>>      w.prefs  <<[p, values]>> in order         *)
(*  w.insts     <<[pid, short, id, rank]>> (rank: place among names)            *)
(*  w.rawfiles  <<[file, pid, site, date, status, lv0, lwp, nc]>>               *)
(*  w.portal    <<[p, pid, model, site, date, file, geo]>> in order of portal   *)
(*  w.catalog   <<[p, ids, sources]>>                                           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
NONE == "-"
Uniq(q) == FoldLeft(LAMBDA a, x : IF \E i \in DOMAIN a : a[i] = x THEN a ELSE Append(a, x), <<>>, q)
Flat(q) == FoldLeft(LAMBDA a, x : a \o x, <<>>, q)
First(q, P(_)) == LET I == {i \in DOMAIN q : P(q[i])} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j
Has(q, x) == \E i \in DOMAIN q : q[i] = x
L3Source(p) == CASE p = "l3-cf" -> "categorize" [] p = "l3-iwc" -> "iwc" [] p = "l3-lwc" -> "lwc" [] OTHER -> NONE
Obs(p) == CASE p = "l3-cf" -> "cf" [] p = "l3-iwc" -> "iwc" [] p = "l3-lwc" -> "lwc" [] OTHER -> NONE
Entry(w, p) == w.catalog[First(w.catalog, LAMBDA c : c.p = p)]
Known(w, p) == (\E i \in DOMAIN w.catalog : w.catalog[i].p = p)
Asked(w) == Uniq([i \in DOMAIN SelectSeq(w.products, LAMBDA x : Known(w, x.p)) |-> SelectSeq(w.products, LAMBDA x : Known(w, x.p))[i].p])
Bracket(w, p) == w.products[First(w.products, LAMBDA x : x.p = p)].bracket
Wishes(w, p) == Flat([i \in DOMAIN w.prefs |-> IF w.prefs[i].p = p THEN w.prefs[i].values ELSE <<>>])
IsPid(w, v) == \E i \in DOMAIN w.pids : w.pids[i] = v
Inst(w, pid) == w.insts[First(w.insts, LAMBDA x : x.pid = pid)]
Fits(i, v) == i.pid = v \/ i.id = v
(* ---- tasks: products of instruments, then what is made of them ------------ *)
Kind(w, p) == IF p = "categorize" THEN "categorize"
              ELSE IF p = "epsilon-radar" THEN "epsilon"
              ELSE IF L3Source(p) # NONE THEN "l3"
              ELSE IF Has(Entry(w, p).sources, "categorize") THEN "cat"
              ELSE IF Has(Entry(w, p).sources, "mwr-l1c") THEN "mwr"
              ELSE IF Entry(w, p).ids # <<>> THEN "instrument" ELSE "other"
Order == <<"instrument", "categorize", "cat", "mwr", "epsilon", "l3">>
Tasks(w) == Flat([k \in DOMAIN Order |-> IF w.dl /\ k > 1 THEN <<>> ELSE SelectSeq(Asked(w), LAMBDA p : Kind(w, p) = Order[k])])
(* ---- the instrument ------------------------------------------------------- *)
Allowed(w, p) ==
    LET ids == Entry(w, p).ids
        wish == Wishes(w, p)
        named == IF Bracket(w, p) # "" THEN <<Bracket(w, p)>> ELSE IF \E i \in DOMAIN wish : IsPid(w, wish[i]) THEN <<>> ELSE wish
        match == {ids[i] : i \in {j \in DOMAIN ids : Has(named, ids[j])}}
    IN IF match # {} THEN match ELSE {ids[i] : i \in DOMAIN ids}
RawOf(w, p) == SelectSeq(w.rawfiles, LAMBDA r : r.site = w.site /\ r.date = w.date /\ r.status \in {"uploaded", "processed"} /\ Inst(w, r.pid).id \in Allowed(w, p))
Candidates(w, p) == {Inst(w, RawOf(w, p)[i].pid) : i \in DOMAIN RawOf(w, p)}
Nth(S, n) == CHOOSE x \in S : Cardinality({y \in S : y.rank < x.rank}) = n - 1
Choice(w, p) ==
    LET S == Candidates(w, p)
        wish == Wishes(w, p)
        i == First(wish, LAMBDA v : \E x \in S : Fits(x, v))
    IN IF S = {} THEN NONE
       ELSE IF i # 0 THEN Nth({x \in S : Fits(x, wish[i])}, 1).pid
       ELSE IF Cardinality(S) = 1 THEN (CHOOSE x \in S : TRUE).pid
       ELSE IF w.answer \in 1..Cardinality(S) THEN Nth(S, w.answer).pid ELSE NONE
Suits(p, r) == CASE p = "radar" -> ~r.lv0 [] p = "mwr" -> r.lwp [] p = "mwr-l1c" -> ~r.nc [] OTHER -> TRUE
Files(w, p, pid) == SelectSeq(RawOf(w, p), LAMBDA r : r.pid = pid /\ Suits(p, r))
Tool(p, id) ==
    CASE p = "radar" /\ id \in {"mira-35", "mira-10"} -> "mira2nc"
      [] p = "radar" /\ id \in {"rpg-fmcw-94", "rpg-fmcw-35"} -> "rpg2nc"
      [] p = "radar" /\ id = "basta" -> "basta2nc"
      [] p = "radar" /\ id = "copernicus" -> "copernicus2nc"
      [] p = "radar" /\ id = "galileo" -> "galileo2nc"
      [] p = "disdrometer" /\ id = "parsivel" -> "parsivel2nc"
      [] p = "disdrometer" /\ id = "thies-lnm" -> "thies2nc"
      [] p = "lidar" /\ id = "pollyxt" -> "pollyxt2nc"
      [] p = "lidar" /\ id # "pollyxt" -> "ceilo2nc"
      [] p = "mwr" -> "hatpro2nc"
      [] p = "mwr-l1c" -> "hatpro2l1c"
      [] p = "mrr" -> "mrr2nc"
      [] p = "weather-station" -> "ws2nc"
      [] OTHER -> NONE
Shape(tool) == IF tool \in {"rpg2nc", "hatpro2nc", "hatpro2l1c"} THEN "folder"
               ELSE IF tool \in {"basta2nc", "thies2nc", "ceilo2nc"} THEN "file" ELSE "list"
(* ---- paths ---------------------------------------------------------------- *)
Folder(w, level) == w.site \o "/" \o w.date \o "/" \o level \o "/"
OutInst(w, i) == Folder(w, "instrument") \o w.ymd \o "_" \o w.site \o "_" \o i.id \o "_" \o i.short \o ".nc"
OutGeo(w, p) == Folder(w, "geophysical") \o w.ymd \o "_" \o w.site \o "_" \o p \o ".nc"
OutL3(w, p, m) == Folder(w, "evaluation") \o w.ymd \o "_" \o w.site \o "_" \o m \o "_" \o p \o ".nc"
Content(tool, out) == "made " \o tool \o " " \o out
Call(s, p, tool, inputs, out, extra) ==
    [s EXCEPT !.calls = Append(@, [p |-> p, tool |-> tool, inputs |-> inputs, out |-> out, extra |-> extra]),
              !.disk = (out :> Content(tool, out)) @@ @]
(* ---- a file of the portal: an existing copy is used again ----------------- *)
Fetch(w, s, f, keep) ==
    LET path == Folder(w, IF f.geo THEN "geophysical" ELSE "instrument") \o f.file
        again == path \in DOMAIN s.disk /\ (~w.force \/ path = keep)
    IN [path |-> path, s |-> IF again THEN s ELSE [s EXCEPT !.disk = (path :> ("new " \o f.file)) @@ @]]
Portal(w, p, v) == SelectSeq(w.portal, LAMBDA f : f.p = p /\ f.site = w.site /\ f.date = w.date /\ (v = "" \/ (f.pid # "" /\ Fits(Inst(w, f.pid), v))))
FetchProduct(w, s, p, v, keep) == IF Portal(w, p, v) = <<>> THEN [path |-> NONE, s |-> s] ELSE Fetch(w, s, Portal(w, p, v)[1], keep)
FetchModel(w, s, m) ==
    LET q == SelectSeq(w.portal, LAMBDA f : f.p = "model" /\ f.site = w.site /\ f.date = w.date /\ (m = "" \/ f.model = m))
    IN IF q = <<>> THEN [path |-> NONE, s |-> s] ELSE Fetch(w, s, q[1], NONE)
Had(s, p) == p \in DOMAIN s.made
(* ---- tasks ---------------------------------------------------------------- *)
DoInstrument(w, s, p) ==
    LET pid == Choice(w, p)
        q == IF pid = NONE THEN <<>> ELSE Files(w, p, pid)
        i == Inst(w, pid)
        \* a file of the right size already there is not downloaded again, unless forced
        got == [n \in {q[k].file : k \in DOMAIN q} |-> IF n \in DOMAIN s.raw /\ ~w.force /\ s.raw[n] # "partial" THEN s.raw[n] ELSE "new " \o n]
        tool == Tool(p, i.id)
        s1 == [s EXCEPT !.raw = got @@ @]
        s2 == Call(s1, p, tool, [raw |-> {got[n] : n \in DOMAIN got}], OutInst(w, i), [pid |-> pid, shape |-> Shape(tool)])
    IN IF q = <<>> THEN s ELSE IF w.dl THEN s1 ELSE [s2 EXCEPT !.made = (p :> OutInst(w, i)) @@ @]
(* the source of categorize: wished instruments first (a Doppler lidar serves as lidar), then any *)
RECURSIVE Wished(_, _, _, _)
Wished(w, s, p, vs) ==
    IF vs = <<>> THEN FetchProduct(w, s, p, "", NONE)
    ELSE LET a == FetchProduct(w, s, p, vs[1], NONE)
             b == FetchProduct(w, s, "doppler-lidar", vs[1], NONE)
         IN IF a.path # NONE THEN a ELSE IF p = "lidar" /\ b.path # NONE THEN b ELSE Wished(w, s, p, Tail(vs))
Take(w, s, p) == IF Had(s, p) THEN s
                 ELSE LET r == Wished(w, s, p, Wishes(w, p)) IN IF r.path = NONE THEN s ELSE [r.s EXCEPT !.made = (p :> r.path) @@ @]
MwrChain == << <<"mwr-single", "">>, <<"mwr", "">>, <<"radar", "rpg-fmcw-35">>, <<"radar", "rpg-fmcw-94">> >>
TakeMwr(w, s) ==
    LET i == First(MwrChain, LAMBDA c : Portal(w, c[1], c[2]) # <<>>)
        r == FetchProduct(w, s, MwrChain[i][1], MwrChain[i][2], IF Had(s, "radar") THEN s.made["radar"] ELSE NONE)
    IN IF Had(s, "mwr") \/ i = 0 THEN s ELSE [r.s EXCEPT !.made = ("mwr" :> r.path) @@ @]
Roles == {"radar", "lidar", "disdrometer", "mwr", "model"}
DoCategorize(w, s) ==
    LET m == FetchModel(w, s, w.model)
        s1 == IF m.path = NONE THEN s ELSE [m.s EXCEPT !.made = ("model" :> m.path) @@ @]
        s2 == TakeMwr(w, Take(w, Take(w, Take(w, s1, "radar"), "lidar"), "disdrometer"))
        out == OutGeo(w, "categorize")
        s3 == Call(s2, "categorize", "generate_categorize", [r \in Roles \cap DOMAIN s2.made |-> {s2.disk[s2.made[r]]}], out, [options |-> w.options])
    IN IF m.path = NONE \/ w.nocat THEN s2 ELSE [s3 EXCEPT !.l2 = ("categorize" :> out) @@ @]
DoCat(w, s, p) ==
    LET r == IF "categorize" \in DOMAIN s.l2 THEN [path |-> s.l2["categorize"], s |-> s]
             ELSE IF s.cat # NONE THEN [path |-> s.cat, s |-> s] ELSE FetchProduct(w, s, "categorize", "", NONE)
        s1 == [r.s EXCEPT !.cat = r.path]
        s2 == Call(s1, p, "generate_" \o p, [categorize |-> {s1.disk[r.path]}], OutGeo(w, p), [x |-> 0])
    IN IF r.path = NONE THEN s ELSE [s2 EXCEPT !.l2 = (p :> OutGeo(w, p)) @@ @]
MwrTool(p) == CASE p = "mwr-single" -> "generate_mwr_single" [] p = "mwr-multi" -> "generate_mwr_multi" [] p = "mwr-lhumpro" -> "generate_mwr_lhumpro" [] OTHER -> NONE
DoMwr(w, s, p) ==
    LET r == IF Had(s, "mwr-l1c") THEN [path |-> s.made["mwr-l1c"], s |-> s] ELSE FetchProduct(w, s, "mwr-l1c", "", NONE)
    IN IF r.path = NONE THEN s ELSE Call(r.s, p, MwrTool(p), ("mwr-l1c" :> {r.s.disk[r.path]}), OutGeo(w, p), [x |-> 0])
DoEpsilon(w, s) ==
    LET r == IF Had(s, "radar") THEN [path |-> s.made["radar"], s |-> s] ELSE FetchProduct(w, s, "radar", "", NONE)
        m == FetchModel(w, r.s, w.model)
    IN IF r.path = NONE THEN s ELSE IF m.path = NONE THEN r.s
       ELSE Call(m.s, "epsilon-radar", "generate_epsilon_from_radar", [radar |-> {m.s.disk[r.path]}, model |-> {m.s.disk[m.path]}], OutGeo(w, "epsilon-radar"), [x |-> 0])
DoL3(w, s, p) ==
    LET src == L3Source(p)
        model == IF w.model = "" THEN "ecmwf" ELSE w.model
        r == IF src \in DOMAIN s.l2 THEN [path |-> s.l2[src], s |-> s] ELSE FetchProduct(w, s, src, "", NONE)
        m == FetchModel(w, r.s, model)
    IN IF r.path = NONE THEN s ELSE IF m.path = NONE THEN r.s
       ELSE IF Has(w.nol3, p) THEN m.s
       ELSE Call(m.s, p, "process_L3_day_product", [product |-> {m.s.disk[r.path]}, model |-> {m.s.disk[m.path]}], OutL3(w, p, model), [obs |-> Obs(p), model |-> model])
Do(w, s, p) ==
    CASE Kind(w, p) = "instrument" -> DoInstrument(w, s, p)
      [] Kind(w, p) = "categorize" -> DoCategorize(w, s)
      [] Kind(w, p) = "cat" -> DoCat(w, s, p)
      [] Kind(w, p) = "mwr" -> DoMwr(w, s, p)
      [] Kind(w, p) = "epsilon" -> DoEpsilon(w, s)
      [] Kind(w, p) = "l3" -> DoL3(w, s, p)
Begin(w) == [made |-> <<>>, l2 |-> <<>>, cat |-> NONE, calls |-> <<>>,
             disk |-> [n \in {w.old[i][1] : i \in DOMAIN w.old} |-> w.old[First(w.old, LAMBDA o : o[1] = n)][2]],
             raw |-> [n \in {w.oldraw[i][1] : i \in DOMAIN w.oldraw} |-> w.oldraw[First(w.oldraw, LAMBDA o : o[1] = n)][2]]]
End(w) == FoldLeft(LAMBDA s, p : Do(w, s, p), Begin(w), Tasks(w))
=============================================================================
