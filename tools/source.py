"""The listed properties; mkfiles.py writes properties.jsonl and MANIFEST.json from this."""

TECH = "TLA+ design model checked by TLC, TLC-generated histories replayed into the real code, recorded traces validated by TLC"
LEVEL = ("Design model: exhaustive within the constants named in DESIGN.md. Code: every execution the drivers "
         "produced (TLC-generated histories and seeded random ones) is judged, event by event, by a TLA+ trace "
         "specification; nothing is claimed for executions that were not produced. ")

PROPERTIES = [
 dict(id="C01", title="After a screen flush the terminal shows exactly the virtual screen",
  statement="After any history of edits to the virtual screen, user cursor changes, resizes, invalidations and flushes, once a flush completes without error a conforming terminal that was in any prior state the library was told about shows exactly the virtual grid (glyphs and attributes), and the user cursor at its position with its attribute and visibility, hidden if it is invisible or unset. A flush with no intervening resize or invalidation writes only cells whose content changed.",
  over=["histories", "inputs", "configurations"],
  quant="all histories of cell edits, text writes, clears, resets, resizes, invalidations, terminal content changes and flushes, for all screen sizes and attributes, on terminals with and without background color erase",
  why="the tests compare the exact bytes of five short hand written histories on one screen size, never interpret them as a terminal would, and never place the user cursor or write to the last row",
  files=["screen.go", "render.go", "state.go", "grid.go", "ansi/sgr.go"],
  mechanism=[("differential grid update", "render.go:writeGridDiff"), ("full redraw", "render.go:writeGridFull"),
             ("relative cursor motion", "state.go:Cursor.To"), ("attribute differencing", "state.go:Cursor.MergeSGR"),
             ("final cursor", "state.go:Cursor.applyTo")],
  state=[("ScreenDiffer.Real", "what the terminal is known to show", "screen.go"),
         ("ScreenDiffer.VirtualScreen", "what it shall show", "screen.go"),
         ("ScreenDiffer.UserCursor", "where the cursor shall be", "screen.go")],
  observe=["bytes written by ScreenDiffer.WriteTo"],
  technique=TECH, level_note=LEVEL + "Trusts the terminal model in spec/Terminal.tla (xterm-like, deferred wrap, width 1 glyphs) and the independent tokenizer in the harness."),
 dict(id="C02", title="Partial writes and write errors never desynchronize the screen",
  statement="If the output accepts only part of a screen update and reports that it would block, continuing the flush delivers the rest of that update unchanged, whatever was done to the virtual screen in between, and the terminal then shows that frame. After any other write error, at whatever byte, the next flush that completes brings the terminal back in sync with the virtual screen, no matter where the output was cut. Leaving the terminal drops what was not written, and restores its attributes and cursor.",
  over=["fault_sequences", "histories", "crash_points"],
  quant="all histories as for C01 with any sequence of partial writes and errors, cut at any byte of the output",
  why="no test ever makes a writer fail or accept less than everything",
  files=["screen.go", "buffer.go", "output.go"],
  mechanism=[("resume of a partial write", "screen.go:ScreenDiffer.WriteTo"), ("invalidate after an error", "screen.go:ScreenDiffer.WriteTo"),
             ("output buffering", "buffer.go:Buffer.WriteTo")],
  state=[("pending output", "assembled bytes that were not written yet", "screen.go"), ("ScreenDiffer.Real", "what the terminal is known to show", "screen.go")],
  observe=["bytes accepted by the writer given to ScreenDiffer.WriteTo"],
  technique=TECH, level_note=LEVEL + "As C01, on terminals without background color erase."),
 dict(id="C03", title="Flushing delivers everything once, in order, and restores the file",
  statement="Output.Flush to a file in non-blocking mode, of which the other side reads any part at any time, delivers all that is pending exactly once and in order before it returns without error, waiting in blocking mode if it must; Flushed counts what was delivered; the file's status flags are afterwards what they were before, also after an error; an error is reported whenever not everything was delivered; and Stalls tells of each wait while it is tracking, until its buffer is full, and of nothing else.",
  over=["schedules", "fault_sequences", "histories"],
  quant="all sizes of output, all schedules of the reading side, including one that goes away at any byte, on blocking, non-blocking and polled files, with stall tracking of any size",
  why="no test writes to a file that would block",
  files=["output.go", "buffer.go"],
  mechanism=[("flush", "output.go:Output.Flush"), ("blocking retry", "output.go:Output.blockingFlush"), ("stall log", "output.go:Output.Stalls")],
  state=[("Output.Flushed", "bytes delivered by the last flush", "output.go"), ("file status flags", "O_NONBLOCK of the output file", "output.go")],
  observe=["bytes read from the pipe", "fcntl F_GETFL of the file", "Output.Flushed, Stalls"],
  technique=TECH, level_note=LEVEL),
 dict(id="C04", title="The virtual screen emulates what is written to it",
  statement="Text, controls and escape sequences written to a Screen or VirtualScreen, however they are split over write calls, have exactly their documented effect on grid and cursor: graphic runes are placed at the cursor with its attribute and advance it, wrapping at the right edge; CR, LF, cursor motions, CUP, ED, EL, SGR and cursor visibility modes act as a terminal would, clamped to the screen; everything else is ignored. To and Clear have their documented effect, and resizing keeps the cursor, where it is still within the screen.",
  over=["inputs", "histories"],
  quant="all byte streams of well formed text and control sequences, in any split into writes, for all screen sizes, interleaved with To, WriteSGR, Clear and Resize",
  why="the tests emulate a handful of short strings on one or two screen sizes, each in one write",
  files=["state.go", "screen.go", "grid.go", "buffer.go", "ansi/decode.go"],
  mechanism=[("rune and control processing", "state.go:Screen.ProcessANSI"), ("cursor motions", "state.go:Cursor.ProcessANSI"),
             ("erasing", "state.go:Screen.clearRegion"), ("decoding", "buffer.go:Buffer.Process")],
  state=[("Screen.Grid", "content", "state.go"), ("Screen.Cursor", "position, attribute, visibility", "state.go")],
  observe=["Screen.Grid and Screen.Cursor after every call"],
  technique=TECH, level_note=LEVEL + "One known finding (scrolling), see known-findings.json."),
 dict(id="C05", title="Decoding does not depend on how the bytes were split",
  statement="A byte stream of UTF-8 text, control characters, escape sequences, control sequences and string controls is decoded to the same runes, escape identifiers and arguments however it is split into writes or reads; nothing is lost, duplicated or invented, incomplete input is waited for, and invalid UTF-8 becomes one replacement rune per byte. Bytes already processed are still delivered unchanged, once and in order, by a Buffer's WriteTo.",
  over=["inputs", "histories", "schedules"],
  quant="all byte streams, and all ways to split them into Write, WriteByte, WriteString, Read calls, with Process, Skip, Discard, WriteTo and Reset calls in between",
  why="the tests decode a table of complete sequences, each handed over in one piece",
  files=["buffer.go", "input.go", "ansi/decode.go"],
  mechanism=[("sequence decoding", "ansi/decode.go:DecodeEscape"), ("buffered processing", "buffer.go:Buffer.Process"), ("input decoding", "input.go:Input.Decode")],
  state=[("Buffer", "written, processed and delivered bytes", "buffer.go"), ("Input.buf", "read but not yet decoded bytes", "input.go")],
  observe=["Processor.ProcessANSI calls", "results of Input.Decode", "bytes written by Buffer.WriteTo"],
  technique=TECH, level_note=LEVEL + "Malformed control sequences are open: their decoding is not specified, only that the decoder neither crashes nor hangs."),
 dict(id="C06", title="Reading terminal input loses nothing and restores its file",
  statement="Input.ReadMore, ReadAny and Decode deliver every byte available on the file exactly once and in order as runes and escapes, ReadAny without ever blocking, ReadMore by waiting for input; end of file and read errors are reported; and the blocking and signalling flags of the file are, on exit, those that it had on entry, whatever was read, notified or failed in between.",
  over=["histories", "schedules", "fault_sequences"],
  quant="all interleavings of arriving input, end of file and errors with ReadMore, ReadAny, Decode, Notify, Enter and Exit calls",
  why="the tests never read from a file descriptor that blocks, or that fails, and never look at its flags",
  files=["input.go"],
  mechanism=[("blocking read", "input.go:Input.ReadMore"), ("non-blocking read", "input.go:Input.ReadAny"), ("flags", "input.go:Input.setFlags")],
  state=[("Input.buf", "read but not yet decoded bytes", "input.go"), ("file status flags", "O_NONBLOCK and O_ASYNC of the input file", "input.go")],
  observe=["results of the read and decode calls", "fcntl F_GETFL of the file"],
  technique=TECH, level_note=LEVEL),
 dict(id="C07", title="Recorded input reads back as it was read",
  statement="While a recording is set, every ReadMore and ReadAny appends to it one frame: the time of the read (for ReadAny that of the call, even when nothing was available; for ReadMore that at which bytes arrived), the error if it fails, and exactly the bytes that were read; and nothing is written when no recording is set. An error in writing the recording is returned by the read. Reading a recording back with ReadInputReplay gives exactly those frames: times to the nanosecond, errors as InputError with the same text, bytes unchanged whatever they are and wherever reads cut characters or sequences, and any other APC strings the user wrote to it in between as message frames, in order; Duration is the time from the first to the last timed frame, and a frame's String shows its bytes.",
  over=["inputs", "histories", "fault_sequences"],
  quant="all byte streams without a complete APC string, cut into reads anywhere, with messages, errors, end of file and failing recordings at any point",
  why="no test records or replays anything",
  files=["input.go"],
  mechanism=[("encoding", "input.go:InputFrame.writeIntoBuffer"), ("decoding", "input.go:ReadInputReplay"), ("recorded reads", "input.go:Input.ReadMore, ReadAny")],
  state=[("recording", "bytes written to the recording so far", "input.go"), ("InputReplay", "frames read back", "input.go")],
  observe=["bytes written to the writer given to SetRecording", "result of ReadInputReplay, Duration, String"],
  technique=TECH, level_note=LEVEL),
 dict(id="C08", title="Terminal contexts are entered, exited and closed in step",
  statement="Whatever nesting of RunWith and RunWithout calls, and whatever contexts or user functions fail or panic: contexts are entered in order before the outermost RunWith's function starts, left in reverse order while a RunWithout's function runs, entered again after it unless it failed, exited in reverse order (unless they are already) once the function is done or entering failed, and closed exactly once, as the first RunWith ends; the first error comes back, panics pass through. Composed contexts do what their parts do, in order, and are not changed by composing them further.",
  over=["histories", "fault_sequences"],
  quant="all trees of RunWith, RunWithout and AddContext calls, with any contexts failing at any call, and user functions that return errors or panic; all compositions of contexts",
  why="there are no tests of Term",
  files=["term.go", "context.go"],
  mechanism=[("entry and exit", "term.go:Term.RunWith"), ("suspension", "term.go:Term.RunWithout"), ("composition", "context.go:Contexts")],
  state=[("Term.active", "whether the contexts are entered", "term.go"), ("Term.under", "whether any RunWith is under way", "term.go")],
  observe=["calls of the methods of Context", "results of RunWith and RunWithout"],
  technique=TECH, level_note=LEVEL + "What happens to the contexts after leaving or reentering them failed half way is specified only for users that pass the error on."),
 dict(id="C09", title="A terminal is left as it was found, and set up while in use",
  statement="Before RunWith, after it returned or panicked, and while a RunWithout function runs, the terminal's termios settings and the status flags of its files are what they were before, or what was set there in between; the modes collected for it are reset, the cursor is visible and has default attributes, and with the alternate screen mode its main screen shows what it did. While a RunWith function runs the modes are set, and the settings those from before as changed by the raw and echo settings asked for, at any time: in raw mode all keys are read at once, unchanged, and not echoed. A TermScreen has the terminal's size, and flushing it shows exactly the virtual screen, whatever was shown meanwhile. An output that cannot be written to, when entering or when leaving, is reported by RunWith, which leaves settings and flags as they were all the same.",
  over=["histories", "fault_sequences"],
  quant="all trees of RunWith and RunWithout calls whose functions return errors or panic, or whose contexts fail, from any depth of the stack, on terminals with any settings and flags, which are changed in between; with any modes, reads, typed keys, flushes and changes of size",
  why="no test runs on a terminal",
  files=["attr.go", "attr_linux.go", "mode.go", "term.go", "input.go", "output.go", "screen.go"],
  mechanism=[("line discipline", "attr.go:Attr.Enter"), ("raw mode", "attr.go:Attr.SetRaw"), ("file flags", "input.go:Input.Exit"), ("modes", "mode.go:Mode.Enter"), ("screen", "screen.go:TermScreen.Exit")],
  state=[("Attr.orig", "settings to restore", "attr.go"), ("Input.oldFlags", "flags to restore", "input.go")],
  observe=["termios and fcntl flags of a pseudo terminal", "bytes written to it, as its display shows them"],
  technique=TECH, level_note=LEVEL + "On Linux pseudo terminals. The user's own output outside leaves default attributes. Whether echo is on in normal mode, if never asked for, is open."),
 dict(id="C10", title="SGR attributes compose, encode and decode as a terminal reads them",
  statement="For all attributes a and b: merging b into a gives b's flags and colors over a's (over nothing if b has an explicit clear); merging a.Diff(b) into a results in b, and the difference of equal attributes is nothing; the encoding of an attribute is one SGR control sequence of exactly Size() bytes that does to a terminal in any state what merging the attribute does (no attributes encode as a clear); and decoding SGR parameters gives the attribute that has their effect. Colors keep their identity through FG, BG, RGB and 24-bit conversion.",
  over=["inputs"],
  quant="all combinations of the attribute flags, unset, 3, 4, 8 and 24-bit colors, all prior states, and all valid lists of SGR codes",
  why="the tests encode and decode a table of attributes, and difference a few pairs of them",
  files=["ansi/sgr.go", "ansi/decode.go", "ansi/colors.go"],
  mechanism=[("composition", "ansi/sgr.go:SGRAttr.Merge"), ("differencing", "ansi/sgr.go:SGRAttr.Diff"),
             ("encoding", "ansi/sgr.go:SGRAttr.AppendTo"), ("decoding", "ansi/decode.go:DecodeSGR")],
  observe=["results of the methods of SGRAttr and SGRColor", "results of DecodeSGR"],
  technique=TECH, level_note=LEVEL + "SGR codes that the attribute type does not represent (blink, fonts, cancel codes) are out of scope for decoding."),
 dict(id="C11", title="The virtual cursor tracks and delivers exactly what was asked",
  statement="After any history of moving, attribute setting, showing, hiding, applying and writing through a VirtualCursor, what its WriteTo delivers leaves a terminal's cursor at the position, with the attribute and visibility, that was asked for, and has printed the written text where and how it was asked to; the tracked Cursor and Real states are true whenever they claim to be known; and after a failed, partial or dropped delivery the cursor recovers, never relying on a position the terminal may not have.",
  over=["histories", "fault_sequences"],
  quant="all histories of VirtualCursor calls, with text, motions and SGR written in any split, partial and failed deliveries, and any prior terminal state",
  why="the tests compare the bytes of a few short histories, without a terminal to interpret them, and without faults",
  files=["cursor.go", "state.go", "buffer.go"],
  mechanism=[("tracking", "cursor.go:VirtualCursor"), ("relative motion", "state.go:Cursor.To"), ("processing of written bytes", "state.go:Cursor.ProcessANSI")],
  state=[("VirtualCursor.Cursor", "the cursor once everything is delivered", "cursor.go"), ("VirtualCursor.Real", "the cursor of the terminal", "cursor.go")],
  observe=["bytes delivered by VirtualCursor.WriteTo", "VirtualCursor.Cursor and Real"],
  technique=TECH, level_note=LEVEL + "The terminal is large enough that no motion reaches its right or bottom margin."),
 dict(id="C12", title="Drawing touches exactly the overlap of the grids, styled",
  statement="A sub-grid shares the cells of its rectangle with its parent, clamped to it, and Full reverses taking it. Drawing a grid into another changes exactly the top-left aligned overlap of the two (sub-)grids: without styles each cell is copied, with styles each becomes what the styles, applied in series to the destination point, prior and source cell, make of it, or stays if that has no rune; nothing else changes, whatever parts of larger grids they are. Clear, Eq, CellOffset and Resize act on exactly the (sub-)grid. Cells that a grid gets by being resized are empty.",
  over=["inputs", "histories"],
  quant="all histories of making, resizing, clearing, comparing and drawing grids and parts of parts of them, with all series of styles",
  why="the tests draw whole 3 by 3 grids of the same size into each other, with at most one style",
  files=["grid.go", "draw.go", "style.go"],
  mechanism=[("views", "grid.go:Grid.SubRect"), ("styled drawing", "draw.go:DrawGrid"), ("plain drawing", "draw.go:copyGrid"), ("style series", "style.go:Styles")],
  state=[("Grid", "cells, stride and rectangle", "grid.go")],
  observe=["contents of all grids after each call"],
  technique=TECH, level_note=LEVEL + "Drawing a grid into an overlapping part of itself, and the content left by Resize, are open."),
 dict(id="C13", title="Input events are queued in order, and counted once",
  statement="What is decoded from a frame's input becomes one event each, in order: runes, escape sequences with their arguments, and valid mouse reports with state and position, which stay readable whatever is decoded later. Queries return exactly what the events left in the queue add up to: terminal runes, rune counts, mouse presses in or outside of a box, scrolling, cursor movement and the last mouse report; consuming ones strike out exactly what they counted (a terminal rune all that follows too), so that nothing is counted twice.",
  over=["inputs", "histories"],
  quant="all event sequences, decoded in any chunks, and all histories of queries on them",
  why="the tests only query events indirectly, through a few line editing scripts",
  files=["x/platform/event.go", "ansi/mouse.go", "ansi/decode.go"],
  mechanism=[("decoding", "x/platform/event.go:Events.add"), ("queries", "x/platform/event.go:Events.HasTerminal")],
  state=[("Events", "types and data of the queued events", "x/platform/event.go")],
  observe=["results of the queries", "Events.Type, Escape, Mouse and Rune after each call"],
  technique=TECH, level_note=LEVEL),
 dict(id="C14", title="A line editor holds, and shows, what was typed",
  statement="After any keys, in any split into frames: an edit line's text and caret are what inserting graphic runes before the caret, deleting the rune before it and moving it by runes make of them; <Enter> and <Esc> end it, and nothing after these is taken. Keys that it handles are struck from the input, others stay. While active it shows the user cursor within its box, at the rune that the caret is before, and draws the text around it, filling the box as far as it goes, and nothing outside.",
  over=["inputs", "histories", "configurations"],
  quant="all sequences of keys, in all splits into frames, with text of any length and runes of any size, for all positions and widths of the box, changing between frames",
  why="the tests run five scripts with ASCII text, in one box",
  files=["x/platform/editline.go"],
  mechanism=[("insertion", "x/platform/editline.go:EditLine.handleGraphicRune"), ("deletion", "x/platform/editline.go:EditLine.handleControlRune"), ("scrolling view", "x/platform/editline.go:EditLine.Update")],
  state=[("EditLine", "text, caret, view, state", "x/platform/editline.go")],
  observe=["EditLine.Buf, Cur and State", "the frame's grid and user cursor", "Events.Type"],
  technique=TECH, level_note=LEVEL),
 dict(id="C15", title="The log sink holds all that was logged, and passes it to its file",
  statement="After any history of writes and reads, a LogSink's Contents are exactly the bytes written and not yet read, with an index of exactly the ends of their lines: each newline, and the end of an unterminated last line. A file set for it gets exactly what is logged while it is set, once and in order: directly, or, while a background writer runs, soon after a notification, and at the latest when that is stopped or the file replaced or unset, which closes it. Errors of writing the file are reported, and no call hangs, whatever the background writer is doing. One goroutine may log while another looks at the contents, reads, and starts and stops the writer: what is seen is whole records in order, everything logged is kept, and the file has it all, without data races.",
  over=["histories", "schedules", "fault_sequences"],
  quant="all histories of Write, Read, SetFile, Start, Stop, Notify and Error calls, with any data, on files that take long or fail",
  why="there are no tests of LogSink, of which one goroutine writes the file while another logs",
  files=["x/platform/log.go", "x/platform/bg.go"],
  mechanism=[("line index", "x/platform/log.go:LogSink.Write"), ("background writer", "x/platform/log.go:LogSink.flushWorker"), ("notification", "x/platform/bg.go:bgWorkerCore.Notify"), ("changing files", "x/platform/log.go:LogSink.SetFile")],
  state=[("LogSink.buf, bufEOLs", "what was logged and not read", "x/platform/log.go"), ("LogSink.fbuf", "what was not written to the file yet", "x/platform/log.go")],
  observe=["LogSink.Contents", "contents of the files", "results of the calls"],
  technique=TECH, level_note=LEVEL + "After an error was reported, what its file has is open. With two goroutines, files do not fail."),
 dict(id="C16", title="A ticker ticks while it is entered, and who waits is told of its exit",
  statement="Ticker.Wait gives the time of a tick of the generation that was entered when it was called, no sooner than one interval after that entering, no time twice or backwards, and no more ticks than there were intervals. It gives the zero time when the ticker is not entered, or is exited (or entered anew) before a tick; it never blocks for longer, nor panics, whatever other goroutines enter and exit meanwhile, and there are no data races between these. Enter and Exit may be repeated in any order, and never fail.",
  over=["histories", "schedules"],
  quant="all histories of entering and exiting, and all schedules of these with one who waits",
  why="there are no tests of the ticker",
  files=["x/platform/tick.go"],
  mechanism=[("generations", "x/platform/tick.go:Ticker.Enter"), ("waiting", "x/platform/tick.go:Ticker.Wait")],
  state=[("Ticker", "ticker and end of the current generation", "x/platform/tick.go")],
  observe=["results of Ticker.Wait, and when it returned", "the race detector's log"],
  technique=TECH, level_note=LEVEL + "Schedules of the real code are sampled; the race detector sees accesses that are not ordered, whether or not they came at the same time."),
 dict(id="C17", title="An open Signal notices what is raised, and errors exit with their code",
  statement="From Open until Close every signal of Notify that is raised is found in the Signal's channel, unless one is already there; that one is kept. Exit, and entering again, lose nothing; Close gives all up, Signals that are open besides are not affected, and a Signal can be opened again. Send leaves a message as a signal would, opening the channel when needed. AsErr takes what is there, once, without waiting, as a SignalError that wraps it, and gives nil otherwise, also when closed. A SignalError's code is minus the signal's number, or 1 for a message. MustRun returns without an error, and otherwise logs it and exits the process with the code that the error has, or 1 if it has none or that is 0.",
  over=["histories", "schedules"],
  quant="all histories of opening, closing, sending, raising and taking over several Signals, and all errors",
  why="there are no tests of signals or MustRun",
  files=["signal.go", "term.go"],
  mechanism=[("registration", "signal.go:Signal.Open"), ("taking", "signal.go:Signal.AsErr"), ("messages", "signal.go:Signal.Send"), ("exit status", "term.go:MustRun")],
  state=[("Signal", "channel and registration", "signal.go")],
  observe=["Signal.C", "results of AsErr and Open", "exit status and stderr of a process"],
  technique=TECH, level_note=LEVEL + "Real signals, in child processes."),
 dict(id="C18", title="Every frame shows the client all its input once, and the terminal what it drew",
  statement="While Platform.Run runs a client, everything that is typed is decoded in order and shown to the client exactly once, each frame having all that was read for it and nothing else, also what was typed before the run or in between runs. Frames come at ticks with time that does not go backwards, LastTime and LastSize are those of the previous frame, the client's time stands still while paused, and the screen is blank and of the terminal's size as of the last size change that was taken; a frame after a change of size, or with Ctrl-L, has Redraw and the size the terminal has then. What the client drew is what the terminal shows after the frame. Stop signals and errors of the client end the run with that error and no further frame; RunWith leaves the terminal in the state that it found, and can be used again.",
  over=["inputs", "histories", "schedules"],
  quant="all timings of input, size changes and signals relative to frames, everything a client may draw, and all series of runs",
  why="there are no tests that run a platform",
  files=["x/platform/platform.go", "x/platform/tick.go", "x/platform/event.go", "signal.go", "input.go", "term.go"],
  mechanism=[("polling", "x/platform/platform.go:Platform.Run"), ("redraw", "x/platform/platform.go:Context.Update"), ("pausing", "x/platform/platform.go:Context.runClient")],
  state=[("Platform.events", "input of the frame", "x/platform/platform.go"), ("State", "Paused, LastTime, LastSize", "x/platform/platform.go")],
  observe=["Context within Client.Update", "bytes written to the terminal", "the pseudo terminal's attributes", "results of Run and RunWith"],
  technique=TECH, level_note=LEVEL + "Real pseudo terminals and signals; schedules are sampled, and those of the model replayed."),
 dict(id="C19", title="Control function codecs are inverse, and sequences immutable",
  statement="Every C0 control, C1 control, ESC, character set and CSI identifier, with its argument, encodes to bytes which decode to that identifier and argument; Size is the exact length for an identifier, and no less than the encoded length for a sequence with arguments. Adding arguments to a Seq leaves every other Seq made from the same one as it was. Modes encode to SM and RM sequences which decode back to them; modes collected for a terminal are reset in reverse order of setting; and mouse reports, numbers and points decode to the values that they encode, or to an error. Named functions, modes and SGR codes have the numbers that ECMA-48, DEC and xterm gave them, and identifiers and mouse states are described as documented.",
  over=["inputs", "histories"],
  quant="all identifiers, arguments of any length, all trees of Seq.With, WithInts and WithPoint calls, all modes, all mouse states and positions",
  why="the tests encode fewer than ten sequences, never two from one",
  files=["ansi/control.go", "ansi/escape.go", "ansi/modes.go", "ansi/mouse.go", "ansi/decode.go", "mode.go"],
  mechanism=[("identifier encoding", "ansi/control.go:Escape.AppendWith"), ("sequence building", "ansi/control.go:Seq.With"),
             ("mouse decoding", "ansi/mouse.go:DecodeXtermExtendedMouse"), ("mode collection", "mode.go:Mode.AddModePair")],
  observe=["encoded bytes", "decoded values"],
  technique=TECH, level_note=LEVEL + "Numbers of up to 8 digits; arguments only on identifiers that take them."),
 dict(id="C20", title="Color models convert to the closest, themed, or composed color",
  statement="A Palette converts a color to one of its colors that no other is closer to in RGB space, and Index finds it; themes, maps, the canonical and the 24-bit models convert as documented; the 8-bit palette's definitions are xterm's; ColorModels applies the given models in series, skipping nil ones, and combining a model further changes no other combination made with it.",
  over=["inputs", "histories"],
  quant="all colors, all palettes, and all trees of combined models",
  why="there are no tests of color conversion",
  files=["ansi/colors.go"],
  mechanism=[("closest color", "ansi/colors.go:Palette.Index"), ("composition", "ansi/colors.go:ColorModels")],
  observe=["results of Convert and Index"],
  technique=TECH, level_note=LEVEL),
 dict(id="C21", title="A replay shows the client what was recorded",
  statement="Ctrl-R starts a recording, and then ends it: the next run replays it. The replayed run starts from the client's and the platform's state as it was when the recording started; its frames show the client, in order, the input of the recorded frames as they had it, at the size of the screen and at about the time they had then, so that the client gets to the same states as when recorded, again in every further run. Space pauses a replay and resumes it; while paused, it shows the recorded frames one at a time, as '.' asks for them; a further run starts over, not paused. Other input typed meanwhile does not reach the client; Ctrl-C ends the replay, with the screen redrawn at the terminal's size, and later input is live; stop signals and client errors end the run; and otherwise it ends as done after the last recorded frame.",
  over=["inputs", "histories", "schedules"],
  quant="all recorded histories of input, in all splits into reads, and size changes, and all that happens during the replay",
  why="there are no tests of recording under a platform, or of replays",
  files=["x/platform/replay.go", "x/platform/state.go", "x/platform/platform.go", "input.go"],
  mechanism=[("recording", "x/platform/replay.go:Platform.setRecording"), ("replay frames", "x/platform/replay.go:replay.update"), ("state", "x/platform/state.go:Platform.readState"), ("size changes", "x/platform/replay.go:Platform.recordSize")],
  state=[("replay", "recorded frames yet to be shown, size", "x/platform/replay.go")],
  observe=["Context within Client.Update", "the client's state", "results of Run"],
  technique=TECH, level_note=LEVEL + "Other input typed while a replay is paused (which may reach the client), and the input read together with the Ctrl-R that starts a recording, are open."),
 dict(id="C22", title="Bitmaps draw and write exactly their bits",
  statement="A bitmap holds the bits it was loaded or parsed with, and every Set, in its (sub-)rectangle and nowhere else. Each of its braille runes has exactly the dots of the bits of its 2 by 4 cell that are within the (sub-)bitmap. Drawing one into a grid styles one rune per cell, in the overlap only; writing it makes a terminal show these runes, row by row from the current line, with the attributes the styles give them.",
  over=["inputs", "histories"],
  quant="all bitmaps and parts of them, all pattern strings, and all series of styles",
  why="the tests draw and write whole bitmaps of full braille cells in a few repeating patterns",
  files=["bitmap.go", "draw.go", "render.go"],
  mechanism=[("braille", "bitmap.go:Bitmap.Rune"), ("parsing", "bitmap.go:ParseBitmap"), ("drawing", "draw.go:DrawBitmap"), ("writing", "render.go:writeBitmap")],
  state=[("Bitmap", "bits, stride and rectangle", "bitmap.go")],
  observe=["results of the methods of Bitmap", "the grid drawn into", "bytes written by WriteBitmap"],
  technique=TECH, level_note=LEVEL + "Which point a style gets while drawing a bitmap, and the attribute of what is drawn without any style, are open."),
 dict(id="C23", title="The debug overlay shows the state, and its controls change what they name",
  statement="Ctrl-K shows and hides the HUD. The client sees all other input, before the HUD does; a hidden HUD leaves the client's frame as it is, and a visible one draws on its own rows and columns only. A click on a control (an odd number of them in a frame) changes exactly what it names: which details are shown, pausing, timing and stalls collection and logging, running profiles, and which row's file is edited. Shown details agree with that state. Typed text goes to the row that is edited only, and a file is created, and its profile started, when a name is submitted. The log view has, on the bottom rows, the last lines of the log or those scrolled to, in order, each on its row, as many as there is room for, below a header that tells which; a view scrolled back stands still while more is logged. No size of the screen, or input, panics.",
  over=["inputs", "histories"],
  quant="all histories of clicks, scrolling, keys, typed text, log writes and reads, and screen sizes",
  why="there are no tests of the HUD or the log view",
  files=["x/platform/hud.go", "x/platform/config.go", "x/platform/diag.go", "x/platform/log.go"],
  mechanism=[("controls", "x/platform/hud.go:HUD.Update"), ("file rows", "x/platform/hud.go:HUD.drawFileEditRow"), ("activation", "x/platform/hud.go:HUD.underActivation"), ("log window", "x/platform/hud.go:LogView.viewWindow")],
  state=[("HUDState", "details shown, row edited", "x/platform/hud.go"), ("LogViewState", "expanded, first line", "x/platform/hud.go")],
  observe=["the screen after HUD.Update and LogView.Update", "exported HUD, Telemetry and State fields", "events the client sees", "files in the working directory"],
  technique=TECH, level_note=LEVEL + "Several clicks on different controls within one frame, and the frame in which a control is clicked (that may still show the old state), are open; recording is part of C21."),
 dict(id="C24", title="Screen geometry is that of sets of points",
  statement="Rectangles behave as the sets of their points: Intersect, Union, In, Overlaps, Eq, Empty and Point.In agree with intersection, least enclosing rectangle, inclusion, and equality of the sets; Add, Sub, Inset and Canon move, shrink and normalize them; and the conversions from and to image points and rectangles are inverse to each other, and panic exactly for what is not valid.",
  over=["inputs"],
  quant="all pairs of rectangles, well formed or not, and all points",
  why="there are no tests of the geometry types",
  files=["ansi/geom.go"],
  mechanism=[("rectangle algebra", "ansi/geom.go:Rectangle.Intersect"), ("conversions", "ansi/geom.go:RectFromImage")],
  observe=["results of the methods of Point and Rectangle"],
  technique=TECH, level_note=LEVEL),
 dict(id="C25", title="Platform configurations merge, and what they ask for runs and is written",
  statement="Merging configurations keeps, of every file name, the first that is given, and sets each flag that either has; command line flags change what they name, those left out nothing. A platform has the merged configuration of the options it is made with, or that of the command line if none is given; it measures timing from the start if timing, or logging it, is asked for. The log goes to the last log file that was configured, all that is logged since, in order, each message once. The CPU and trace profilers that are asked for run while a platform is entered, and no longer; once left, their files, and that of the memory profile, are whole, also when it is run again, and when the run ends by an error or panic. What can not be created or started is an error, and leaves nothing running.",
  over=["inputs", "histories"],
  quant="all configurations, option lists and command lines, and all histories of platforms made, run and left in a process",
  why="there are no tests of configurations",
  files=["x/platform/config.go", "x/platform/options.go", "x/platform/platform.go"],
  mechanism=[("merging", "x/platform/config.go:Config.Merge"), ("flags", "x/platform/config.go:Config.AddFlags"), ("set up", "x/platform/config.go:Config.setup"), ("profiles", "x/platform/config.go:Config.Enter")],
  state=[("Config", "file names, flags, open profiles", "x/platform/config.go")],
  observe=["exported Config fields", "profilers that run", "files", "errors"],
  technique=TECH, level_note=LEVEL + "Profiles are told by their format only, not by what they measured."),
 dict(id="C26", title="Telemetry tells, and logs, what frames and stalls took",
  statement="While timing is enabled or logged, the times between frames are collected in windows of as many frames as make a quarter of a second; when one is full, the timing statistics are of its frames: rate, elapsed time, least, most and quartiles, until the next is. While stalls are tracked they are collected along with it, none that a window's frames had is missing, and the statistics are number, least, most, sum, and share of the time since the last. The estimated frame rate is the mean rate of the last second's worth of frames. With logging enabled, each window, and batch of stalls, is logged as it was measured, at most once and in order, those that come too fast may be left out but never the last; to a telemetry file, along with the use of resources over the last seconds, once a second, or else to the log. Changing what is collected starts and stops that only, at any time, and nothing races with the background writing.",
  over=["inputs", "histories", "schedules"],
  quant="all frame rates, frame times, stalls of the terminal, and histories of changes to what is collected and logged",
  why="there are no tests of telemetry",
  files=["x/platform/diag.go", "x/platform/options.go", "x/platform/bg.go", "output.go", "x/platform/platform.go"],
  mechanism=[("frame times", "x/platform/diag.go:TimingData.update"), ("stalls", "x/platform/diag.go:StallsData.update"), ("estimate", "x/platform/diag.go:FPSEstimate.update"), ("logging", "x/platform/diag.go:telemetryCollector.logData"), ("resources", "x/platform/diag.go:rusageData.computeDeltas")],
  state=[("TimingData", "times of the window, statistics", "x/platform/diag.go"), ("telemetryCollector", "what is to be logged", "x/platform/diag.go")],
  observe=["Telemetry within Client.Update", "the telemetry file", "the log"],
  technique=TECH, level_note=LEVEL + "How long a stall took is known by a lower bound only; the rate of the very first window is open."),
 dict(id="C27", title="Terminfo entries are found where told, and read as they are written",
  statement="Reading a compiled terminfo entry, however the reader returns its parts, gives each key and function exactly the string that the entry has for its capability, and an empty one if it is absent, cancelled, or beyond the entry's string section; an entry that is invalid, or ends before a needed string does, is an error. KeyMap and FuncMap have all of them by name. The search path is TERMINFO only, if set, or else the home directory, those of TERMINFO_DIRS, empty ones being the default, and the default. Load takes the first readable entry on it, in either directory layout, and the same one again whatever changes; if there is none, a builtin one for the name or a terminal that the name has in it; else, and for an empty name, it is an error.",
  over=["inputs", "histories"],
  quant="all entries, their prefixes and corruptions, all environments, and all histories of files and loads",
  why="the tests look at builtin entries only",
  files=["terminfo/read.go", "terminfo/terminfo.go", "terminfo/builtin.go"],
  mechanism=[("reading", "terminfo/read.go:Terminfo.ReadFrom"), ("search path", "terminfo/terminfo.go:SearchPath"), ("loading", "terminfo/terminfo.go:Load"), ("builtins", "terminfo/builtin.go:GetBuiltin")],
  state=[("cache", "entries loaded, by name", "terminfo/terminfo.go")],
  observe=["Terminfo fields", "results and errors"],
  technique=TECH, level_note=LEVEL + "A string that goes beyond the table its header tells of, but not the file, may be read or be an error. Load is not tried with entries in the home directory."),
 dict(id="C28", title="The filter commands change just what they convert, however input is split",
  statement="to24bit writes its input as it is, byte for byte, be it text, control sequences, invalid or incomplete, except that instead of an SGR control sequence that sets a color of the 256-color palette comes one with the same effect on attributes and colors, whatever they were before, all colors being 24-bit ones of the standard palette. decode -strip writes the runes and controls of its input, in order, without any escape sequence or control sequence, or part of one. Neither result depends on which parts the input comes in, where those cut runes and sequences, nor on the length of any; both take input without an error to its end.",
  over=["inputs", "schedules"],
  quant="all inputs, and all ways to split them into reads",
  why="there are no tests of the commands",
  files=["cmd/to24bit/main.go", "cmd/decode/main.go", "ansi/decode.go"],
  mechanism=[("conversion", "cmd/to24bit/main.go:process"), ("input that goes on", "cmd/to24bit/main.go:readMore"), ("stripping", "cmd/decode/main.go:processBatch"), ("decoding", "ansi/decode.go:DecodeEscape")],
  state=[("readBuf", "input not yet processed", "cmd/to24bit/main.go")],
  observe=["standard output and exit code of the commands"],
  technique=TECH, level_note=LEVEL + "SGR codes that attributes do not represent, such as blinking, make the whole sequence open; so do malformed sequences, what is inside of strings, and C1 controls for decode -strip."),
]

NOT_APPLICABLE = []
NOTES = "TLA+ with TLC; see DESIGN.md."
