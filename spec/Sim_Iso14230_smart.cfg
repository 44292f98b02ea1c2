INIT MInit
NEXT MNext
CONSTANTS MaxIn = 7
          Smartness = 1
INVARIANT Emit
