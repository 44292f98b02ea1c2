INIT MInit
NEXT MNext
CONSTANTS MaxIn = 7
          Smartness = 0
INVARIANT Emit
