SPECIFICATION Spec
CONSTANTS Configs <- FixedQuick
          Kinds <- AllKinds
          MaxCalls = 3
          MaxACalls = 2
          MaxAppends = 0
          Groups <- Grps
          Emit = TRUE
          Walk = FALSE
PROPERTY Refines
INVARIANTS StreamOK NothingLost
CHECK_DEADLOCK FALSE
