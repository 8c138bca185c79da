SPECIFICATION Spec
CONSTANTS Bytes = {0, 255, 107}
          MaxLen = 5
          Junk = {61, 45, 33, 122}
          MaxJunk = 5
INVARIANTS ReadsInside WritesInside Encodes Decodes Inverse
PROPERTY Returns
CHECK_DEADLOCK FALSE
