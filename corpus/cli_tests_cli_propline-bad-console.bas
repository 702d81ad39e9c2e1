#!/usr/bin/env endbasic
' endbasic cli: console=bogus
PRINT "Hello"
