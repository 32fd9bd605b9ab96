SPECIFICATION Spec
CONSTANT CLAUSES = {"C06","C07","C08","C09","C10","C16"}
INVARIANT Accepted
POSTCONDITION Consumed
VIEW View
CHECK_DEADLOCK FALSE
