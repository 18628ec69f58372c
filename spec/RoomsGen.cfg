SPECIFICATION Spec
INVARIANTS Mapped Once Owing AtRest Emptied Safe Emit
CONSTANT TAGS = {}
CONSTANT NC = 2
CONSTANT N = 4
CONSTANT Par = 1
CONSTANT Looks = FALSE
CONSTANT Emits = TRUE
