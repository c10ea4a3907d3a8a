CONSTANTS
  FinalLoop = TRUE
  Sizes = {2, 3}
  Qs <- Q3
SPECIFICATION Spec
INVARIANTS Admissible IsStationary Optimal DecisiveIsOptimal
PROPERTY Ends
