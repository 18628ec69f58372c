SPECIFICATION Spec
CONSTANTS N = 3
 Letters = {"T","t","J","B","G","C","c","i","X","R","K","k","Z","V","H","P"}
 Kinds = {"msg"}
 Sizes = {1}
INVARIANTS Delivered Everything Pongs Sound
