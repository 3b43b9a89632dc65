---------------------------- MODULE MCAttenuation -----------------------------
EXTENDS Attenuation
=============================================================================
