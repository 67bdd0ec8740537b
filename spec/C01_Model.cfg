SPECIFICATION Spec
INVARIANT Bounded Results OkMeansCriterion MaxMeansAll NoEarlyStop
PROPERTY Terminates
