SPECIFICATION Spec
INVARIANT RetryBelowMax AboveMin Grows
