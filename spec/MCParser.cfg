SPECIFICATION Spec
VIEW View
INVARIANTS MemoryOk Stateless
PROPERTIES Untraced Bounded Apart
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
