SPECIFICATION Spec
CONSTANTS Configs <- QuickConfigs
          Emit = TRUE
          Walk = 0
VIEW View
PROPERTY Refines
CHECK_DEADLOCK FALSE
