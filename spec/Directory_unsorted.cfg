SPECIFICATION Spec
CONSTANTS Emails = {1, 2, 3}
          Buckets = 2
          Servers = {s1, s2}
          Sorting = FALSE
INVARIANTS Identical Complete Found
CHECK_DEADLOCK FALSE
