#!/usr/bin/env endbasic
' endbasic cli: nope
