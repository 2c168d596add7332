SPECIFICATION Spec
CONSTANTS None = None
 SHARE = TRUE
 MAXOBJ = 4
 MAXW = 30
PROPERTY Noticed
CHECK_DEADLOCK FALSE
