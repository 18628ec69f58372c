SPECIFICATION Spec
CONSTANTS N = 4
 Letters = {"t","J","B","C","c","i","X","K","V","G"}
 Kinds = {"msg"}
 Sizes = {1}
INVARIANTS Delivered Everything Pongs Sound
