SPECIFICATION Spec
CONSTANTS Base = 2
          W = 4
          Lim = 1000
          Signal = 1
          E = 1
          H = 2
          MaxCells = 3
          MaxBatch = 2
          MaxLen = 13
INVARIANTS RoundTrip SizeAnnounced Canonical CanonicalBlock
CHECK_DEADLOCK FALSE
