SPECIFICATION Spec
INVARIANTS Found Lost Hooks AtRest Safe
CONSTANT TAGS = {}
CONSTANT NC = 2
CONSTANT N = 4
CONSTANT Par = 2
CONSTANT Looks = TRUE
CONSTANT Emits = FALSE
