CONSTANT N = 3
CONSTANT Own = TRUE
CONSTANT Through = TRUE
SPECIFICATION Spec
INVARIANT Refuses
INVARIANT Names1
INVARIANT Distinct
PROPERTY Answers
