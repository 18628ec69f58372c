SPECIFICATION Spec
INVARIANTS Mapped Once Owing AtRest Emptied Safe
CONSTANT TAGS = {}
CONSTANT NC = 2
CONSTANT N = 3
CONSTANT Par = 2
CONSTANT Looks = FALSE
CONSTANT Emits = FALSE
