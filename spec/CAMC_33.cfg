SPECIFICATION Spec
CONSTANTS H = 3
 W = 3
 SX = 2
INVARIANTS Bounded Equivariant DeadStaysDead
CHECK_DEADLOCK FALSE
