----------------------------- MODULE MCExtract -----------------------------
EXTENDS Extract
S2 == {1, 2}
V2 == {0, 1}
V3 == {0, 1, 2}
=============================================================================
