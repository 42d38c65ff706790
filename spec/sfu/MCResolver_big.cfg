SPECIFICATION Spec
CONSTANTS Cap = 2
People = {"u1", "u2", "u3", "u4"}
Other = {"u1"}
INVARIANTS Pure Bounded Distinct
CHECK_DEADLOCK FALSE
