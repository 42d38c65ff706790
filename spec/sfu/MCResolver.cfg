SPECIFICATION Spec
CONSTANTS Cap = 1
People = {"u1", "u2", "u3"}
Other = {"u1"}
INVARIANTS Pure Bounded Distinct
CHECK_DEADLOCK FALSE
