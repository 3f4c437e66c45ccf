prim rt::*
