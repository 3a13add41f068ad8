INIT Init
NEXT SNext
VIEW View
CHECK_DEADLOCK TRUE
