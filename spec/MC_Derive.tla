----------------------------- MODULE MC_Derive ------------------------------
EXTENDS GenDerive
=============================================================================
