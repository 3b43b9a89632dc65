SPECIFICATION Spec
INVARIANTS Total ClearIff OnlyClutterMatters CloudIsDropletOrIce IceClass DetectionAgrees CorrectedMeansAll IceStatusTotal DropletStatusTotal DrizzleStatusTotal
CHECK_DEADLOCK FALSE
