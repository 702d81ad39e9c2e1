P("K01", "Cloud sessions send exactly the documented requests and keep their state",
  "For any sequence of LOGIN, LOGOUT, SIGNUP, SHARE, MOUNT and file commands over cloud drives, the client sends exactly the requests that each command stands for, once each, with the caller's credentials and with any file name, user name and content reaching the service unaltered; it shows what the service answers; reports each failure of the service or of the connection without pretending success, losing the session or the CLOUD drive, or changing local files; asks for confirmation before signing up; and never shows a password.",
  ["histories", "inputs", "fault_sequences"], "all sequences of cloud commands, names and contents, and all failures of the service and the connection at any request",
  "The tests that use the real service need an account and the network and do not run; the others mock the service, so escaping, authentication and failures of the transport are never exercised together.",
  ["client/src/cloud.rs", "client/src/cmds.rs", "client/src/drive.rs", "client/src/lib.rs"],
  [("requests and responses", "client/src/cloud.rs"), ("commands", "client/src/cmds.rs"), ("cloud drives", "client/src/drive.rs")],
  "exploration", "runtime monitor of the requests received by a model service on the loopback, with injected faults, against a model of session, drives and files",
  "Exploration of random sessions with injected failures against an independent model; the service is a model, not the production one.")
P("D01", "The ST7735S panel shows what the console draws and its buttons type keys",
  "For any sequence of console operations, bus transfer size and partial writes, the commands and pixels sent over SPI leave the memory of the chip showing exactly what the graphical console draws, within windows that fit the panel, only while the chip is selected, initialized and lit; a failed transfer is reported by the operation and repainting recovers from it; each press of a button is one key, interleaved with those of the keyboard without losing any; and the backlight is off at the end.",
  ["histories", "fault_sequences", "schedules"], "all sequences of console operations, transfer sizes, partial writes, failures of the bus and pins, and interleavings of buttons and keys",
  "The driver needs hardware, so the tests that exist only cover argument parsing and partial writes.",
  ["st7735s/src/lib.rs", "std/src/gfx/lcd/buffered/mod.rs", "std/src/console/graphics.rs"],
  [("protocol of the chip", "st7735s/src/lib.rs"), ("buttons", "st7735s/src/lib.rs")],
  "exploration", "runtime monitor of the SPI and GPIO operations by an emulation of the chip, against the panel of an in-memory console, with injected faults",
  "Exploration of random histories against an emulated chip; timing and electrical behaviour are out of scope.")
P("G01", "The window shows what the console draws, plays tones and types exact keys",
  "For any resolution, font, colors and sequence of console operations, each frame of the graphical window has exactly the pixels that the operations stand for (sloped lines may differ from the ideal by less than two pixels), frames are shown when and only when the synchronization mode asks for them, and queries answer what was drawn; every key pressed or text typed arrives exactly once, in order, with one break signal per interrupt, and other events are ignored; tones are square waves of exactly the frequency and duration asked for; and a failure to open the video or the audio is an error of the operation and nothing else.",
  ["histories", "inputs", "configurations", "fault_sequences"], "all resolutions, fonts, colors, sequences of operations, events and tones, and failures of the devices",
  "The tests compare a dozen pictures of fixed scenes and a couple of keys.",
  ["sdl/src/host.rs", "sdl/src/console.rs", "sdl/src/lib.rs", "std/src/console/graphics.rs", "std/src/console/drawing.rs"],
  [("raster operations and event loop", "sdl/src/host.rs"), ("client of the host", "sdl/src/console.rs")],
  "exploration", "runtime monitor of every frame presented by the window, of the samples played and of the keys and signals received, against an independent canvas",
  "Exploration of random histories on SDL's dummy drivers; text and curves use the shared drawing code on both sides, which S10 and S11 monitor.")
P("T01", "A terminal shows what the console is told to show, and types exact keys",
  "For any sequence of console operations on a terminal of any size, the terminal shows exactly the text, positions, colors, cleared areas, cursor and alternate screen that the operations stand for, with no control character of the text reaching it; every key typed arrives exactly once, in order and as the key it stands for, with one break signal per interrupt; the size follows the environment or else the window; the terminal gets its modes back at the end; and without a terminal the output is the plain text and the input is consumed by lines until the end of the file.",
  ["histories", "inputs"], "all sequences of console operations, texts and typed keys, and all terminal sizes",
  "The tests only cover a few key events because the console needs a terminal, which the tests do not have.",
  ["terminal/src/lib.rs", "std/src/console/trivial.rs", "std/src/console/mod.rs"],
  [("terminal console", "terminal/src/lib.rs")],
  "exploration", "runtime monitor of the bytes sent to a pseudo-terminal by an emulation of the terminal, and of the keys received, against a model of the screen",
  "Exploration of random histories on pseudo-terminals against an independent model of the screen.")
P("S12", "The command runs scripts and sessions with the right output, files and exit code",
  "For any script, options, console that the script asks for, input and local drive, the command prints exactly what the program prints, with errors and their places on the standard error; returns the exit code of the program, 1 on errors, 2 on bad usage and 130 when interrupted; refuses bad options, scripts and console specifications with a message before running anything; keeps what sessions save in the chosen drive, byte for byte, for other processes and touches no other file; and leaves the terminal as it was.",
  ["programs", "inputs", "configurations", "histories"], "all scripts, options, console specifications, inputs, interactive sessions and terminals",
  "A few golden files cover the command; options, files and terminals are never combined.",
  ["cli/src/lib.rs", "cli/src/main.rs", "cli/src/propline.rs", "cli/src/console.rs", "cli/src/storage.rs", "cli/src/gpio.rs", "std/src/console/spec.rs", "repl/src/lib.rs", "terminal/src/lib.rs"],
  [("command", "cli/src/lib.rs"), ("console of scripts", "cli/src/propline.rs"), ("console specification", "std/src/console/spec.rs"), ("interactive loop", "repl/src/lib.rs")],
  "exploration", "runtime monitor of real processes of the command (output, errors, exit code, files, terminal) against models of scripts and sessions",
  "Exploration of random scripts, options and sessions on real processes against independent models.")
