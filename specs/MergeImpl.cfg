SPECIFICATION Spec
CONSTANTS N = 5
          MaxSize = 12
          Validate = TRUE
          Levy = {4}
CONSTRAINT Bounded
PROPERTIES Conserved Atomic Shrinks
CHECK_DEADLOCK FALSE
