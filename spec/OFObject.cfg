CONSTANTS
  Depth = 3
  PrintHist = TRUE
  ClearOnUpdate = {"chi0", "filt_td", "chit", "amps", "chi"}
SPECIFICATION Spec
INVARIANTS Coherent CachesCoherent
