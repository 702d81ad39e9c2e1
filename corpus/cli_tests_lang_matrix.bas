' EndBASIC
' Copyright 2021 Julio Merino
'
' Licensed under the Apache License, Version 2.0 (the "License"); you may not
' use this file except in compliance with the License.  You may obtain a copy
' of the License at:
'
'     http://www.apache.org/licenses/LICENSE-2.0
'
' Unless required by applicable law or agreed to in writing, software
' distributed under the License is distributed on an "AS IS" BASIS, WITHOUT
' WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.  See the
' License for the specific language governing permissions and limitations
' under the License.

rows = 10
cols = 40
DIM map(rows, cols) AS STRING

FOR i = 0 TO rows - 1
    FOR j = 0 to cols - 1
        IF i = 0 OR i = rows - 1 OR j = 0 OR j = cols - 1 THEN
            map(i, j) = "*"
        ELSE
            map(i, j) = "."
        END IF
    NEXT
NEXT

FOR i = 0 TO rows - 1
    t = ""
    FOR j = 0 TO cols - 1
        t = t + map(i, j)
    NEXT
    PRINT t
NEXT
