SPECIFICATION ShowSpec
CHECK_DEADLOCK FALSE
