SPECIFICATION Spec
VIEW View
INVARIANTS UniqueNames StableIndices OnlyNamed FailAtomic Idempotent LoadOnlyItsPattern SumOfPatterns Commute SnapshotIsolated CurrentIsOfSnapshot FilesFaithful EffectiveRestraints
CHECK_DEADLOCK FALSE
