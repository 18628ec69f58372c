SPECIFICATION Spec
INVARIANTS Found Lost Hooks AtRest Safe Emit
CONSTANT TAGS = {}
CONSTANT NC = 3
CONSTANT N = 4
CONSTANT Par = 1
CONSTANT Looks = FALSE
CONSTANT Emits = TRUE
