------------------------------ MODULE MCEvalRun ------------------------------
EXTENDS EvalRun
=============================================================================
