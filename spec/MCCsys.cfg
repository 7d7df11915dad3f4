SPECIFICATION Spec
VIEW View
INVARIANTS RightHanded OwnTurns GlobalTurns Unique
CHECK_DEADLOCK FALSE
