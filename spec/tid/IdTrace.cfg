SPECIFICATION Spec
INVARIANTS Usable_ok Leaves_ok Show_ok Split_ok Refuse_ok
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
