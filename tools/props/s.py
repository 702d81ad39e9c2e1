P("S01", "String functions obey their documented laws for every string",
  "LEN, LEFT, RIGHT, MID, LTRIM, RTRIM, ASC, CHR, STR, VAL-like conversions and string concatenation or comparison count and cut Unicode characters, never bytes: LEFT(s,n)+RIGHT(s,LEN(s)-n) rebuilds s, MID agrees with both, CHR inverts ASC and parsing inverts STR. Arguments outside of their documented domain (negative counts, empty strings, invalid code points) are reported as errors at the argument and never crash or return a cut character.",
  ["inputs"], "all strings of Unicode characters and all integer arguments",
  "Tests use short ASCII strings; multi-byte characters, combining blanks and extreme lengths or offsets are unbounded families.",
  ["std/src/strings.rs", "core/src/vm/context.rs"],
  [("string functions", "std/src/strings.rs"), ("string operators", "core/src/vm/context.rs")],
  "exploration", "runtime monitor comparing traced results with an independent model, plus algebraic laws", SORACLE)
P("S02", "Numeric functions return the mathematically right value or an error",
  "ABS, INT, SGN, SQR, ROUND, MIN, MAX, trigonometric functions in both angle modes and the conversions between doubles and integers return the documented value for every argument, including infinities, NaN, signed zeros and the extremes of both types; what cannot be represented is reported as an error, never wrapped. RND stays within [0,1), RND(0) repeats the last number, and RANDOMIZE with equal seeds yields equal sequences on every machine.",
  ["inputs", "histories"], "all numeric arguments and all sequences of RANDOMIZE and RND calls",
  "Tests use a few small numbers; rounding, overflow and NaN edges, and the independence of random sequences from other activity, range over the whole double domain and all histories.",
  ["std/src/numerics.rs", "core/src/num.rs"],
  [("numeric functions", "std/src/numerics.rs"), ("conversions of doubles to integers", "core/src/num.rs")],
  "exploration", "runtime monitor comparing traced results with an independent model, plus sequence laws", SORACLE)
P("S03", "READ delivers every DATA value once, in order, and arrays keep their bounds",
  "READ assigns the DATA values of the whole program in source order, one per target, wherever the DATA statements are and whatever the control flow, converting as assignments do; an exhausted list or a value of the wrong type is an error at the target that leaves the targets before it assigned, and RESTORE starts over. LBOUND and UBOUND report the bounds an array was dimensioned with and every subscript outside of them is an error.",
  ["programs", "histories"], "all placements of DATA, sequences of READ and RESTORE and array shapes",
  "Tests read short lists once; the position is state that interacts with chunks, errors, handlers and target types.",
  ["std/src/data.rs", "std/src/arrays.rs", "core/src/compiler/top.rs", "core/src/mem.rs"],
  [("position of READ", "std/src/data.rs"), ("array bounds", "std/src/arrays.rs")],
  "exploration", "runtime monitor comparing traced assignments with a model of the data list", SORACLE)
P("S04", "Files stay where they were written and nothing outside of a drive is reachable",
  "Paths resolve the same way in every command: drive names ignore case, the current drive applies when none is given, and names with separators or dots never reach outside of the drive. DIR, CD, MOUNT, UNMOUNT, COPY, KILL and PWD report and change exactly what a model of mounted drives says; what one command writes every other reads back byte for byte until it is overwritten or killed; failing commands change nothing.",
  ["inputs", "histories"], "all histories of storage commands over all names and drives",
  "Tests run single commands on good names; the guarantee is about histories, hostile names and several drives at once.",
  ["std/src/storage/mod.rs", "std/src/storage/cmds.rs", "std/src/storage/fs.rs", "std/src/storage/mem.rs"],
  [("path resolution", "std/src/storage/mod.rs"), ("commands", "std/src/storage/cmds.rs"), ("directory drives", "std/src/storage/fs.rs")],
  "exploration", "runtime monitor comparing storage and host directories with a model after every operation", SORACLE)
P("S05", "Storage failures are reported and leave everything else intact",
  "When a drive, the console or the host file system fails at any point of a storage operation, the program gets an error at its call, no other file, mount, location or variable changes, no drive stays half mounted and the machine goes on working; DIR and COPY cope with entries that vanish, cannot be read or are not regular files.",
  ["fault_sequences", "histories"], "all storage operations and all points at which their dependencies can fail",
  "Tests inject no faults; which operation fails and when is an unbounded family.",
  ["std/src/storage/mod.rs", "std/src/storage/cmds.rs", "std/src/storage/fs.rs"],
  [("commands", "std/src/storage/cmds.rs"), ("directory drives", "std/src/storage/fs.rs")],
  "exploration", "fault injection in drives, consoles and file systems with a runtime monitor of the remaining state", SORACLE)
P("S06", "The stored program is never lost without consent and runs as on a fresh machine",
  "LOAD, SAVE, NEW, EDIT, LIST and RUN act on the text, name and modification mark of the program exactly as documented: SAVE writes the text byte for byte, LOAD and NEW ask before they discard unsaved changes and change nothing unless answered yes, failures of drives change nothing, and RUN behaves as the same text does on a fresh machine, whatever happened before it, reporting nonzero exit codes.",
  ["histories", "fault_sequences"], "all histories of program commands, answers, programs and drive faults",
  "Tests run one command from a fresh state; the guarantee relates every command to the whole history.",
  ["std/src/program.rs", "repl/src/editor.rs", "std/src/lib.rs"],
  [("program commands", "std/src/program.rs"), ("actions of the machine", "std/src/lib.rs"), ("editor", "repl/src/editor.rs")],
  "exploration", "runtime monitor comparing program, files, screen and variables with a model after every command", SORACLE)
P("S07", "Line editing shows and returns what the keys say",
  "While a line is read, the screen shows the prompt and the visible part of the line with the cursor at the right cell, for every sequence of keys, console width, prompt, initial text and history; the line returned, what interruptions and end of input do, and the resulting history follow from the keys pressed; nothing else on the screen changes.",
  ["inputs", "histories"], "all key sequences, widths, prompts, texts and histories",
  "Tests press a few keys on one width; scrolling, history navigation and edits interact in unboundedly many ways.",
  ["std/src/console/readline.rs"],
  [("line editor", "std/src/console/readline.rs")],
  "exploration", "runtime monitor of an emulated terminal and of results against an independent editor model", SORACLE)
P("S08", "The program editor never loses text and shows the right part of it",
  "For every sequence of keys, program and screen size, the text after editing is what the keys say, every line outside the edited ones is untouched, the modification mark is set exactly by changes, and before every key the screen shows the right window of the text with the cursor on the edited character, in sync with the status line.",
  ["inputs", "histories"], "all key sequences, programs and screen sizes",
  "Tests press a few keys on short programs; scrolling, indentation, joins and splits interact in unboundedly many ways.",
  ["repl/src/editor.rs"],
  [("editor", "repl/src/editor.rs")],
  "exploration", "runtime monitor of an emulated terminal and of the text against an independent editor model", SORACLE)
P("R01", "The interactive loop survives every line and keeps its state",
  "Each line typed at the prompt behaves as if given to the machine directly: errors, interruptions and compilation failures are reported and the session goes on with its variables and program intact; interruptions while typing affect only that line; END leaves with its code only after agreeing to lose unsaved changes; end of input leaves. AUTOEXEC.BAS runs once at start and its failures never prevent the start; programs run from the cloud yield the exit code and message that correspond to their outcome.",
  ["histories"], "all sessions of lines, interruptions, answers and start programs",
  "Tests drive single lines; state carried between lines is what a session relies on.",
  ["repl/src/lib.rs", "std/src/lib.rs", "std/src/console/readline.rs"],
  [("interactive loop", "repl/src/lib.rs"), ("machine", "std/src/lib.rs")],
  "exploration", "runtime monitor comparing session transcripts with a machine driven line by line", SORACLE)
P("S09", "PRINT, INPUT, COLOR, LOCATE and INKEY act exactly as documented",
  "PRINT shows every argument as STR would, honors the separators and field widths by characters and leaves the line open exactly when the statement ends in a separator. INPUT asks again until an answer suits the type of its variable, stores precisely that answer and leaves the variable alone when input ends. COLOR and LOCATE accept exactly the documented ranges and report anything else at the offending argument without touching the console; INKEY returns each pressed key once, in order; SCRCOLS, SCRROWS and CLS concern the whole screen.",
  ["inputs", "histories"], "all argument lists, answers, key sequences and screen sizes",
  "Tests try a few arguments of each form; combinations of types, separators, widths, rejected answers and edited retries are unbounded.",
  ["std/src/console/cmds.rs", "std/src/strings.rs", "std/src/console/readline.rs"],
  [("console commands", "std/src/console/cmds.rs")],
  "exploration", "runtime monitor comparing console events and traced values with an independent model", SORACLE)
P("S10", "Graphics paint the documented shapes, all of them and nothing else",
  "Every drawing command hands exactly its coordinates to the console or reports the first argument out of range. On graphical consoles of any size, for all coordinates including those far outside, shapes paint all of their visible pixels with the foreground color and no pixel away from the shape, floods fill exactly the 4-connected region of the seed, GFX_PEEK reports the color on the screen, nothing crashes or runs forever, and with syncing disabled nothing is visible until the next sync, which shows everything.",
  ["inputs", "histories"], "all sequences of drawing commands over all coordinates, colors, syncing states and panel sizes",
  "Tests draw a few small shapes on a recorder; clipping, overflow, region shapes and damage tracking depend on unbounded combinations.",
  ["std/src/gfx/mod.rs", "std/src/console/drawing.rs", "std/src/console/graphics.rs", "std/src/gfx/lcd/buffered/mod.rs"],
  [("drawing primitives", "std/src/console/drawing.rs"), ("graphical console", "std/src/console/graphics.rs"), ("commands", "std/src/gfx/mod.rs")],
  "exploration", "runtime monitor of the pixels of an emulated panel after every operation against geometric predicates and a flood-fill model", SORACLE)
P("S11", "The graphical text console shows exactly what a terminal model says",
  "For every sequence of writes, cursor movements, clears, color changes, scrolling, alternate screens and sync changes, on any panel size and font, every pixel of the panel equals what a character-grid model renders: glyphs in their cells and colors, the cursor where the next character goes and only while visible, scrolled lines, and nothing outside of the affected cells; with syncing disabled the panel shows the state of the last sync.",
  ["histories", "configurations"], "all sequences of text console operations, fonts and panel sizes",
  "Tests check the operations sent for single calls; interactions of cursor, scrolling, alternate screens and damage tracking are histories.",
  ["std/src/console/graphics.rs", "std/src/console/linebuffer.rs", "std/src/gfx/lcd/buffered/mod.rs"],
  [("text of the graphical console", "std/src/console/graphics.rs"), ("buffered panels", "std/src/gfx/lcd/buffered/mod.rs")],
  "exploration", "runtime monitor of the pixels of an emulated panel after every operation against a character-grid model", SORACLE)
P("S16", "Pauses, timestamps and tones are exactly those requested",
  "SLEEP waits once for exactly the requested time, MONOTONIC reports the clock, and SOUND and BEEP play exactly the requested tones, for all values; negative, overflowing and undefined times or pitches are reported at the argument and neither wait nor sound.",
  ["inputs"], "all integer and double arguments",
  "Tests use a few short times; the conversions to durations have unbounded domains with overflow and NaN edges.",
  ["std/src/datetime.rs", "std/src/sound/cmds.rs", "std/src/sound/mod.rs"],
  [("time commands", "std/src/datetime.rs"), ("sound commands", "std/src/sound/cmds.rs")],
  "exploration", "runtime monitor of requests on a virtual clock and audio recorder against an exact model", SORACLE)
P("S13", "Pins are told exactly what programs ask, and left cleared",
  "Each GPIO command performs exactly the operation it documents on exactly the pin it names, once, and GPIO_READ returns the level of that pin; pin numbers, modes and failures of the board are reported at their position without touching any pin, and clearing the machine resets all pins once. The mock board records every operation in order and hands out injected levels first in, first out, only for the pin that they are for.",
  ["histories", "inputs"], "all sequences of operations on pins, all pin numbers and modes, and failures of the board",
  "Tests call each operation once or twice with valid pins; conversions of pin numbers and the mock's queue have unbounded histories.",
  ["std/src/gpio/mod.rs", "std/src/gpio/fakes.rs"],
  [("GPIO commands", "std/src/gpio/mod.rs"), ("mock pins", "std/src/gpio/fakes.rs")],
  "exploration", "runtime monitor of operations on a recording board and on the mock against a model", SORACLE)
P("S14", "Help and listings show everything, pause in time and stop when told",
  "HELP finds the topic whose name, in any case, is given or is the only one with that prefix, reports unknown and ambiguous topics with exactly their candidates, and shows the complete description of any topic, list of a category or summary, on consoles of any size and without changing colors. HELP, LIST and DIR pause on interactive consoles before any text scrolls away unread, continue where they paused without losing text, and stop right there when asked to.",
  ["inputs", "configurations"], "all topics and prefixes, programs and directories, console sizes and keys",
  "Tests show a few topics at a few sizes; refilling, paging and prefix search depend on lengths, widths and the whole set of names.",
  ["std/src/help.rs", "std/src/console/pager.rs", "std/src/console/format.rs", "std/src/program.rs", "std/src/storage/cmds.rs"],
  [("help topics", "std/src/help.rs"), ("paging", "std/src/console/pager.rs"), ("refilling of text", "std/src/console/format.rs")],
  "exploration", "runtime monitor of console events (rows since the last pause, words shown, colors) against the table of callables", SORACLE)
P("S15", "Clearing a machine makes it as good as new",
  "After any history of chunks that succeed, fail, are rejected or interrupted, CLEAR, NEW, LOAD and RUN leave the machine as a newly created one: no variable, function, label, DATA position, error handler, error message or angle mode survives, whatever runs next behaves exactly as on a new machine, pins are cleared exactly once and the console gets back its default colors, screen, cursor and syncing.",
  ["histories"], "all histories of chunks before any of the clearing commands and all programs after them",
  "Tests clear one variable or mode; leaks of state between compiler, VM and commands show only after particular histories.",
  ["std/src/exec.rs", "std/src/lib.rs", "core/src/vm/mod.rs", "core/src/compiler/mod.rs", "std/src/data.rs", "std/src/numerics.rs", "std/src/console/cmds.rs"],
  [("clearing the machine", "std/src/lib.rs"), ("commands that clear", "std/src/exec.rs"), ("clearables", "std/src/console/cmds.rs")],
  "exploration", "differential runtime monitor between cleared machines and new ones over random histories", SORACLE)
