SPECIFICATION Spec
INVARIANT Fresh
