SPECIFICATION Spec
CONSTANTS Emails = {1, 2, 3, 4}
          Buckets = 2
          Servers = {s1, s2}
          Sorting = TRUE
INVARIANTS Identical Complete Found
CHECK_DEADLOCK FALSE
