----------------------------- MODULE MCClassify -------------------------------
EXTENDS Classify
MCTemps == {283150, 272000, 264000, 257000, 230000}
=============================================================================
