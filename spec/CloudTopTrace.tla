----------------------------- MODULE CloudTopTrace ----------------------------
(* Judges the cloud boundaries of a whole scene.                             *)
(*  cls: target classes, time x height; height: gate heights (m amsl)        *)
(*  alt: site altitude; att: radar attenuation status                        *)
(*  base, top, base_agl, top_agl: reported heights (FILL when missing)       *)
(*  status: cloud top status (FILL when missing)                             *)
(* or of a plain mask with a given size limit (kind = "mask"):               *)
(*  cells: the mask, out: the result of removing small features              *)
EXTENDS TraceBase
K == INSTANCE CloudLayers WITH NTimes <- 0, NGates <- 0, MaxSize <- 20, mask <- {}, todo <- {}, kept <- {}

CloudTargets == {1, 3, 4, 5}
MaskOf(cls, T) == {<<t, z>> \in (1..Len(cls)) \X (1..Len(cls[1])) : cls[t][z] \in T}
TopStatus(att, isLast) ==
    IF isLast THEN 4 ELSE IF att = 3 THEN 1 ELSE IF att = 5 THEN 2 ELSE IF att = 4 THEN 3 ELSE 0
JudgeScene(e) ==
    LET kept == K!Large(MaskOf(e.cls, CloudTargets), 20)
        n == Len(e.cls)
        m == Len(e.height)
        b(t) == K!Base(kept, t)
        h(t) == K!Top(kept, t)
        val(out, k, off) == IF k = 0 THEN out = FILL ELSE out # FILL /\ Near(out, e.height[k] - off, 1)
    IN C("ONE_VALUE_PER_PROFILE", Len(e.base) = n /\ Len(e.top) = n /\ Len(e.base_agl) = n /\ Len(e.top_agl) = n /\ Len(e.status) = n)
       \cup IF Len(e.base) # n \/ Len(e.status) # n THEN {} ELSE
            C("BASE_IS_LOWEST_CLOUD_PIXEL", \A t \in 1..n : val(e.base[t], b(t), 0))
            \cup C("TOP_IS_HIGHEST_CLOUD_PIXEL", \A t \in 1..n : val(e.top[t], h(t), 0))
            \cup C("HEIGHT_ABOVE_GROUND", \A t \in 1..n : val(e.base_agl[t], b(t), e.alt) /\ val(e.top_agl[t], h(t), e.alt))
            \cup C("TOP_STATUS", \A t \in 1..n :
                    IF h(t) = 0 THEN e.status[t] \in {0, FILL}
                    ELSE e.status[t] = TopStatus(e.att[t][h(t)], h(t) = m))
JudgeMask(e) ==
    C("SMALL_FEATURES_REMOVED", MaskOf(e.out, {1}) = K!Large(MaskOf(e.cells, {1}), e.size))
Judge(e) == IF e.kind = "mask" THEN JudgeMask(e) ELSE JudgeScene(e)
VARIABLE l
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ Report(l, Judge(Trace[l]))
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
