SPECIFICATION Spec
INVARIANTS FixedEndDist FixedEndConc Resultants Mirrored Interpolation Stiffness Mass Orthonormal
CHECK_DEADLOCK FALSE
