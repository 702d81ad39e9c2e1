#!__ENDBASIC__

PRINT "Hello, shebang!"
