CONSTANTS
  FinalLoop = FALSE
  Sizes = {3}
  Qs <- Q3
SPECIFICATION Spec
INVARIANTS Admissible IsStationary Optimal DecisiveIsOptimal
