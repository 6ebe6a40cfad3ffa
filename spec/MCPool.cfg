SPECIFICATION Spec
INVARIANT Sound
INVARIANT NoDeadlock
INVARIANT WaitedAllDone
PROPERTY Terminates
CONSTANTS NW = 2 MaxSpur = 2
CONSTANT Script <- ScriptA
CHECK_DEADLOCK FALSE
