SPECIFICATION MSpec
CONSTANTS MaxIn = 4
          Smartness = 0
INVARIANTS AtMost4 RetransOnlyOnBusy NeverPending RefusalFlagged NullHasError BadMarked
PROPERTY Terminates
