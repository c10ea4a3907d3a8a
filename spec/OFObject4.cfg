CONSTANTS
  Depth = 4
  PrintHist = TRUE
  ClearOnUpdate = {"chi0", "filt_td", "chit", "amps", "chi"}
SPECIFICATION Spec
INVARIANTS Coherent CachesCoherent
