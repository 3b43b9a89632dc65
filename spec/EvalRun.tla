------------------------------- MODULE EvalRun -------------------------------
(* C20: runs of the evaluation that write the same file, one after another.   *)
(* The file is absent, empty (0 bytes) or the product of some run.  A run     *)
(* opens the observations, then the model, screens both, and only then         *)
(* touches the file; anything wrong with the inputs stops it before that.      *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth
Faults == {"none", "obs", "model"}
VARIABLES file, pc, req, log
vars == <<file, pc, req, log>>
ABSENT == 0
EMPTY == -1
Exists(f) == f > 0
Init == /\ file \in {ABSENT, EMPTY, 100} /\ pc = "idle" /\ req = [overwrite |-> FALSE, fault |-> "none"]
        /\ log = <<[file |-> file]>>
Start == /\ pc = "idle" /\ Len(log) <= Depth
         /\ \E o \in BOOLEAN, f \in Faults : req' = [overwrite |-> o, fault |-> f]
         /\ pc' = "guard" /\ UNCHANGED <<file, log>>
End(result, f) == /\ file' = f /\ pc' = "idle" /\ log' = Append(log, [overwrite |-> req.overwrite, fault |-> req.fault, result |-> result, file |-> f])
                  /\ UNCHANGED req
Guard == /\ pc = "guard"
         /\ IF Exists(file) /\ ~req.overwrite THEN End("FileExistsError", file)
            ELSE pc' = "obs" /\ UNCHANGED <<file, req, log>>
ReadObs == /\ pc = "obs"
           /\ IF req.fault = "obs" THEN End("error", file) ELSE pc' = "model" /\ UNCHANGED <<file, req, log>>
ReadModel == /\ pc = "model"
             /\ IF req.fault = "model" THEN End("error", file) ELSE pc' = "save" /\ UNCHANGED <<file, req, log>>
Save == pc = "save" /\ End("ok", Len(log))
Next == Start \/ Guard \/ ReadObs \/ ReadModel \/ Save \/ (pc = "idle" /\ Len(log) > Depth /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
(* A product is only replaced if that was asked for, and only by a product. *)
Kept == [][(Exists(file) /\ file' # file) => (req.overwrite /\ Exists(file') /\ file' > 0)]_file
NoFault == [][file' # file => req.fault = "none"]_file
NeverLost == \A i \in 1..Len(log) : Exists(log[i].file) => Exists(file)
Ends == [](pc # "idle" => <>(pc = "idle"))
Emit == (pc = "idle" /\ Len(log) = Depth + 1) => PrintT("CASE " \o ToJson(log))
=============================================================================
