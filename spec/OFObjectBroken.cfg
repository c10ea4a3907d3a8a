CONSTANTS
  Depth = 3
  PrintHist = FALSE
  ClearOnUpdate = {"chi0", "filt_td", "chit", "amps"}
SPECIFICATION Spec
INVARIANTS Coherent
