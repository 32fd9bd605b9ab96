---------------------------- MODULE MCLifecycle ----------------------------
EXTENDS Lifecycle
AllParams == {"step", "dir", "maxd", "nest", "rs", "agg", "crit", "mss", "msl", "mf", "bins", "cw", "mc", "strat",
              "njobs", "unk", "catmin", "sub", "cat", "verb"}
AllVals == [p \in AllParams |-> IF p \in {"step", "dir", "mf", "strat", "catmin", "cat"} THEN 3 ELSE 2]
RegParams == AllParams \ {"dir", "crit", "cw", "mc", "strat"}
OneParam == {"step"}
TwoParams == {"step", "dir"}
FewParams == {"step", "dir", "agg", "rs"}
RegFew == {"step", "agg", "rs"}
O1 == {1}
O2 == {1, 2}
O3 == {1, 2, 3}
D1 == {1}
D2 == {1, 2}
None == {}
StepOps == {"set", "bad", "fit", "badfit", "use"}
CopyOps == {"set", "pickle", "copy", "light", "fit", "use"}
LifeOps == {"set", "bad", "fit", "fitcat", "badfit", "badat", "use", "clone", "light"}
AllKinds == {"set", "bad", "fit", "fitcat", "badfit", "badat", "use", "clone", "light", "pickle", "copy"}
=============================================================================
