SPECIFICATION Spec
CONSTANTS N = 3
 Letters = {"t","J","C","c","i","X","K","V"}
 Kinds = {"msg","bin","json","next","read"}
 Sizes = {0,1,2}
INVARIANTS Delivered Everything Pongs Sound
