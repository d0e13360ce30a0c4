SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
INVARIANTS NoDirtyRelease LivingIntact GivenIntact NoLeak
