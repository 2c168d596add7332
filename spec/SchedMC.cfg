SPECIFICATION Spec
VIEW View
INVARIANT InvFeasible InvDisjoint InvShape InvCost
PROPERTY StepOK
CHECK_DEADLOCK FALSE
