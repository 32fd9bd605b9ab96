------------------------------ MODULE MCForest ------------------------------
EXTENDS Forest
C1 == {1}
C2 == {1, 2}
T2 == {1, 2}
T3 == {1, 2, 3}
T4 == {1, 2, 3, 4}
Own == [t \in 1 .. 4 |-> (t + 1) \div 2]     \* two trees per class
=============================================================================
