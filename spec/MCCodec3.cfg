SPECIFICATION Spec
CONSTANTS Base = 3
          W = 2
          Lim = 1000
          Signal = 1
          E = 1
          H = 1
          MaxCells = 2
          MaxBatch = 2
          MaxLen = 8
INVARIANTS RoundTrip SizeAnnounced Canonical CanonicalBlock
CHECK_DEADLOCK FALSE
