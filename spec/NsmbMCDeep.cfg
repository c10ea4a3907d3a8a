CONSTANTS
  FinalLoop = TRUE
  Sizes = {2, 3}
  Qs <- Q5
SPECIFICATION Spec
INVARIANTS Admissible IsStationary Optimal DecisiveIsOptimal
PROPERTY Ends
