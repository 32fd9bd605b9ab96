----------------------------- MODULE MCStreams -----------------------------
EXTENDS Streams
F2 == {1, 2}
F3 == {1, 2, 3}
Seeds == [f \in 1 .. 3 |-> IF f = 3 THEN 8 ELSE 7]
=============================================================================
