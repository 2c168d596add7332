SPECIFICATION Spec
INVARIANT Commutes Cancels DivIsMul Powers Homomorphism DimHom Table
CHECK_DEADLOCK FALSE
