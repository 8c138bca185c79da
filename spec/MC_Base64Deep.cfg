SPECIFICATION Spec
CONSTANTS Bytes = {0, 255, 107}
          MaxLen = 7
          Junk = {61, 45, 33, 122}
          MaxJunk = 7
INVARIANTS ReadsInside WritesInside Encodes Decodes Inverse
PROPERTY Returns
CHECK_DEADLOCK FALSE
