SPECIFICATION Spec
INVARIANT Inv
CONSTANT Gen = TRUE
CONSTANT Lens = {3, 4, 5, 20, 60, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300}
