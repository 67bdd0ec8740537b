SPECIFICATION Spec
INVARIANT NoMemory
