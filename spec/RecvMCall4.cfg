SPECIFICATION Spec
CONSTANTS N = 4
 Letters = {"t","J","C","c","X"}
 Kinds = {"msg","bin","json","next","read"}
 Sizes = {0,1,2}
INVARIANTS Delivered Everything Pongs Sound
