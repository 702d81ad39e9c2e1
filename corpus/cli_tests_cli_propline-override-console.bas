#!/usr/bin/env endbasic
REM endbasic cli: console=bogus
PRINT "Hello"
