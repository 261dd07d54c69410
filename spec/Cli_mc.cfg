SPECIFICATION Spec
CONSTANT Full = TRUE
INVARIANTS Type Accepted
PROPERTIES Consent Kept Effects
VIEW View
CHECK_DEADLOCK FALSE
