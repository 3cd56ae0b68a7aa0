#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that statements can be edited comfortably)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Terminal output is exactly-once, ordered and never scrambled",
  "On a terminal, every line printed (plain, wrapped or echoed) by any number of threads appears exactly once, whole and unaltered, above the status line and prompt, no matter what typing, prompt, status or notice activity happens at the same time. Lines from one thread appear in the order it printed them, and a line printed after another thread's line was known to be printed appears after it. Everything printed before the instance is shut down has been shown by the time shutdown returns.",
  ["schedules", "histories"],
  "All numbers of concurrent printing threads, all interleavings with typing and prompt/status/notice updates, with a shutdown at any point after the prints.",
  "The test-suite never runs the terminal output path at all: no test has a tty. Concurrency, ordering and shutdown are sampled nowhere.",
  ["src/lib.rs", "src/worker.rs"],
  [("single request channel drained by one output thread", "src/worker.rs tty_worker"),
   ("erase live area, print line, redraw", "src/worker.rs TtyState::rollin/output_line/rollout")],
  observe=["byte stream at the master side of a pseudo-terminal, decoded by an independent terminal emulator"])

p("C02", "The screen always shows transcript, status, prompt and input, cursor in place",
  "On a terminal, whenever there is nothing left to process, the screen shows exactly the printed lines, then the status line if there is one (a blank one if it is blank), then the prompt followed by the input being edited, each broken at the right edge of the terminal (for text without zero-width characters), with nothing left over from earlier contents. The cursor sits at the insertion point and is visible exactly when input is allowed and no notice is shown. This holds after any sequence of prints, status changes, prompt changes, edits, screen clears and bells, however the new contents differ from the old.",
  ["histories", "inputs"],
  "All sequences of output, status, prompt and editing operations, all terminal widths, all texts of single- and double-width characters and newlines and all styles, as long as the live area fits on the screen.",
  "Redraw is incremental: what is sent depends on the difference between the previous and the next contents, so correctness is a property of pairs and sequences of screen states. No test runs the redraw code.",
  ["src/worker.rs", "src/term/cross.rs"],
  [("difference-based redraw", "src/worker.rs TtyState::output_line_changes"),
   ("composition of the live area", "src/worker.rs TtyState::rollout"),
   ("erasure before printing", "src/worker.rs TtyState::rollin")],
  state=[("remembered output", "what the live area looked like after the last redraw and where the cursor was left", "src/worker.rs RememberedOutput")],
  observe=["emulated screen, cursor position and visibility at quiescence"])

p("C03", "Printed text keeps exactly its styles and colors, and cannot inject controls",
  "Every character of a printed line is shown with exactly the style, foreground and background color it was given, for any sequence of attribute changes within the line, and nothing of them carries over into the following lines, the status line, the prompt or the input; the input is shown in the style and colors in force at the end of the prompt. Control characters in displayed text (C0 and C1 controls and the Unicode line and paragraph separators, newline excepted) are shown as visible inverse-video placeholders and never reach the terminal as controls.",
  ["inputs", "histories"],
  "All sequences of styled segments (every style set, every foreground and background color, including none), all texts including control characters, over consecutive lines.",
  "One unit test checks how three control characters are stored in a line; no test looks at what is sent to a terminal. Attribute output is stateful: what is sent depends on the attributes sent before.",
  ["src/term/cross.rs", "src/worker.rs", "src/line.rs", "src/lib.rs"],
  [("attribute tracking", "src/term/cross.rs set_attrs"), ("reset after each line", "src/worker.rs TtyState::handle"),
   ("control character expansion", "src/line.rs Line::add_text")],
  observe=["attributes of every cell of the emulated screen"])

p("C04", "Line editing follows the documented key bindings exactly",
  "For any sequence of typed text and editing keys (character insertion, left/right, home/end, backspace and delete, kill to start, kill to end, word erase, yank, discard, end-of-input on a non-empty line, return), the input line and cursor always equal those of the documented editor, and the line delivered on return is exactly that text. Combining (zero-width) characters move and are deleted together with the character they follow, the cursor is never inside a character, and no key sequence, however long, makes editing fail.",
  ["inputs", "histories"],
  "All sequences of keys and of text in any script, including multi-byte, double-width and combining characters, and any state of cut text.",
  "No test exercises editing at all; the state space is sequences of keys over arbitrary Unicode text.",
  ["src/worker.rs", "README.md"],
  [("edit operations on text and byte cursor", "src/worker.rs TtyState::handle_*")],
  state=[("input, cursor, clipboard", "line being edited, byte position, last cut text", "src/worker.rs TtyState")],
  observe=["responses delivered to the program, emulated screen"])

p("C05", "Every key yields its documented response, exactly once and in order",
  "Each control key produces its documented response (quit, finish on an empty line, discarded with the text so far, info, break, escape, swap, or unknown with the key's code between 0 and 31), and every finished line, control-key response and custom value is delivered exactly once, in the order in which it was entered, without disturbing the line being edited. The code reported for a generic unknown-key message equals the control code of the key that caused the response. Keys that only edit produce no response.",
  ["inputs", "histories"],
  "All sequences of keys mixed with text and program requests, all chunkings of the byte stream.",
  "No test delivers a key; order and multiplicity are properties of whole key sequences.",
  ["src/worker.rs", "src/lib.rs", "src/term/cross.rs"],
  [("key dispatch", "src/worker.rs TtyState::handle_input, handle_event"), ("code mapping", "src/lib.rs Response::as_unknown")],
  observe=["sequence of responses read by the program"])

p("C06", "Terminal input bytes are decoded losslessly and robustly",
  "Well-formed UTF-8 text (control characters aside) typed at a terminal reaches the line unchanged whatever its code points and however the byte stream is split into reads, and the arrow, home, end and delete escape sequences act as those keys while unrecognized CSI sequences are ignored whole. Malformed bytes (stray continuation bytes, invalid lead bytes, truncated sequences, surrogate code points, values beyond U+10FFFF) are replaced by U+FFFD and never swallow the valid characters that follow. No byte sequence makes input stop working, and a lone escape byte is reported as the Escape key once no sequence follows.",
  ["inputs"],
  "All byte sequences and all ways of splitting them into reads.",
  "No test feeds any bytes to a terminal; the space of byte strings and splits is unbounded.",
  ["src/term/cross.rs"],
  [("incremental decoder with carry-over buffer", "src/term/cross.rs input_thread"), ("CSI recognition", "src/term/cross.rs parse_csi_sequence")],
  observe=["responses and resulting input lines for byte streams written to a pseudo-terminal"])

p("C07", "History browsing is faithful and never loses the line being typed",
  "Moving back and forward through history at the prompt shows the stored lines in order, newest first, with the cursor at the end; moving past the newest entry brings back the unfinished line exactly as it was left, and moving past the oldest (or forward from the unfinished line) changes nothing. Submitting a line appends it to the history, and submitting, discarding or clearing the line returns browsing to the newest end. Replacing the history at any moment, even while an older line is being shown, never disrupts the program and browsing continues in the new history (an older line being shown that the new history does not contain becomes the unfinished line).",
  ["histories", "schedules"],
  "All histories, all interleavings of browsing, editing, submitting and replacing the history from another thread.",
  "No test browses history; replacement races with queued keystrokes and only matters in particular interleavings.",
  ["src/worker.rs", "src/lib.rs", "src/history.rs"],
  [("browse position, saved new line", "src/worker.rs history_prev/history_next"), ("re-finding the place after replacement", "src/worker.rs TtyState::handle BumpHistory"), ("replacement", "src/lib.rs InputOutput::swap_history")],
  observe=["input line shown and submitted after every key; liveness of the instance"])

p("C08", "The history container obeys its limit, duplicate and autosave-interval rules",
  "After any sequence of operations on a history, its lines are exactly those of the documented model: added lines go at the end, identical older lines are removed if duplicates are stripped, and when a line is added the oldest lines beyond the limit are removed (the newest line is always kept). With an autosave interval N the autosave handler runs after every N added lines, seeing the up-to-date lines, and its errors are returned from the add that triggered it without losing the line. Lines written to a file and read back are the same lines in the same order, and reading tolerates CRLF endings and an initial byte-order mark and changes nothing on failure.",
  ["histories", "inputs"],
  "All sequences of add/set-limit/set-strip/set-interval/read/write operations and all line contents without line breaks.",
  "No test touches the history type.",
  ["src/history.rs"],
  [("add with stripping and trimming", "src/history.rs History::add_line"), ("file format", "src/history.rs read_history_from/write_history_to")],
  observe=["lines returned by the history after every operation; files written"])

p("C09", "A file-backed history survives crashes and write errors, and is really saved",
  "A history created from a file saves its lines to that file when autosave is due (each interval, and when the history is dropped with unsaved lines), also when the file did not exist before. If the process dies, or any file operation fails, at any point during any save, then loading the history again yields completely either the lines of the last successful save or the lines being saved, never fewer, mixed or truncated lines; this also holds when such failures follow one another. A save that did not fully reach the file reports an error.",
  ["crash_points", "fault_sequences"],
  "Every system call of every save in a history of saves, as a crash point or as an injected error or short write, including crashes and errors that follow earlier ones.",
  "No test saves a history; crash points and I/O errors cannot be sampled by running to completion.",
  ["src/history.rs"],
  [("write new file, set old one aside, rename", "src/history.rs History::from_file autosave handler"), ("fallback to the set-aside copy", "src/history.rs History::from_file"), ("save on drop", "src/history.rs")],
  observe=["directory contents and result of reloading after each injected crash or error"])

p("C10", "Notices are shown, replaced and removed as documented, and never do harm",
  "A notice replaces the prompt and input on the screen, and disappears when its time is up (not earlier, and not long after), as soon as the user presses any key while input is allowed, or when another notice is shown, in which case only the newest notice's own time counts. Prompt, input and cursor then reappear exactly as they should be. Any number of notices, with any durations in any order, leaves output and input fully working.",
  ["histories", "schedules", "inputs"],
  "All sequences of notices with arbitrary durations (including zero and the longest possible), overlapping or following one another, mixed with keys, prints, status and prompt changes.",
  "No test shows a notice; expiry is driven by a separate timer thread and depends on sequences of deadlines.",
  ["src/worker.rs"],
  [("deadline thread", "src/worker.rs tty_worker heartbeat thread"), ("expiry check", "src/worker.rs TtyState::handle Heartbeat"), ("dismissal", "src/worker.rs dismiss_notice")],
  observe=["emulated screen over time; liveness of the instance"])

p("C11", "Prompt settings take effect: input permission and clearing",
  "Each prompt request sets the prompt text, whether input is allowed, and, if asked, empties the line being edited, regardless of what the previous prompt was and what has been typed. While input is not allowed, typed keys change nothing and produce no responses; as soon as it is allowed again, typing works. Clearing leaves an empty line with the cursor at its start and the next keys edit it normally; not clearing keeps the line and cursor unchanged.",
  ["histories"],
  "All sequences of prompt requests with all flag combinations, same or different text, interleaved with typing, history browsing and output.",
  "No test sets a prompt on a terminal.",
  ["src/worker.rs", "src/lib.rs"],
  [("prompt request handling", "src/worker.rs TtyState::handle Prompt"), ("input gating", "src/worker.rs handle_input/handle_event")],
  observe=["responses, emulated screen and cursor visibility"])

p("C12", "Pipe mode passes lines through exactly and nothing else",
  "When (and only when) standard input or output is not a terminal, or TERM is dumb or pipe, each printed line (plain or wrapped) appears on standard output as its exact text plus a newline, in order, unwrapped and without any escape sequences, while prompts, statuses, notices, bells and echoed lines output nothing. Every line of standard input is delivered exactly once, in order and unprocessed except for its line ending, including a last line without one; invalid UTF-8 does not end input, and at end of input the program is told once that input is finished while output keeps working. Work handed over to run outside the library's control is run, in order with the output.",
  ["inputs", "histories", "configurations"],
  "All input byte streams (with any chunking, end of input at any point), all output sequences from any number of threads, all combinations of tty/non-tty stdin and stdout and TERM.",
  "The two tests that create an instance in pipe mode fail on the original tree; nothing checks what is read or written.",
  ["src/worker.rs", "src/lib.rs"],
  [("pipe mode loop", "src/worker.rs pipe_worker"), ("mode selection", "src/worker.rs worker, is_pipe_term")],
  observe=["bytes on the stdout pipe; responses"])

p("C13", "Shutting down always completes and gives the terminal back",
  "Shutting an instance down, by dropping it or by the blocking or asynchronous call, completes promptly in every mode and state, whether idle, typing, displaying a notice, running on any supported terminal type or with other threads still printing. Afterwards the terminal settings are those from before, the cursor is visible, line wrap is on, attributes are reset, the status line, prompt and input are erased and the cursor is at the start of the line below the last printed line; standard input and output work normally for the program. A new instance can then be created and works, any number of times in succession, with no threads or file descriptors accumulating.",
  ["schedules", "histories", "configurations"],
  "All states at shutdown, all three ways of shutting down, pipe and terminal modes, all schedules of other threads, any number of create/shutdown cycles.",
  "Tests that create an instance hang on the original tree; interruption of the blocked reader thread depends on timing.",
  ["src/lib.rs", "src/worker.rs", "src/unix_util.rs", "src/term/cross.rs", "src/term/vt52.rs"],
  [("shutdown handshake", "src/lib.rs actually_blocking_die, die"), ("reader interruption", "src/unix_util.rs InterruptibleStdinThread::interrupt"), ("terminal restoration", "src/term/cross.rs suspend/cleanup")],
  observe=["termios, emulator modes, /proc/self/fd and thread count, reads from stdin after shutdown"])

p("C14", "Dead instances say so; only one instance is ever alive",
  "When the terminal goes away or the instance has died, reads report dead, after that nothing but dead, and a program that keeps reading is stopped by a panic after a fixed number of reports; output calls on a dead instance panic instead of silently losing output. At most one instance exists at a time: creating a second one panics without harming the first, and a new one can be created only once the old one has completely shut down, whichever threads race. The global output function and macros work exactly while an instance is alive and panic otherwise.",
  ["schedules", "histories", "fault_sequences"],
  "All races between shutting down, creating and printing from several threads; hang-up of the terminal and closing of the output at any point; with and without the global feature.",
  "No test creates two instances, kills the terminal or races shutdown against creation.",
  ["src/lib.rs", "src/worker.rs", "src/term/cross.rs"],
  [("single instance guard", "src/lib.rs InputOutput::new, Drop for InputOutput"), ("death count", "src/lib.rs report_death"), ("global sender", "src/lib.rs output()")],
  observe=["results and panics of API calls at the program boundary"])

p("C15", "Custom values and responses are never lost or duplicated by any way of reading",
  "Every custom value sent by any thread is delivered to the reader exactly once and intact, in the order in which each thread sent them, in terminal and in pipe mode. Mixing blocking, asynchronous, polling, timeout and deadline reads never loses, duplicates or reorders a response; a timed read returns nothing only after its time has passed, and promptly returns a response that is available.",
  ["schedules", "histories"],
  "All numbers of sending threads, all mixtures of reading methods with arbitrary (including zero) timeouts, all interleavings.",
  "No test sends a custom value or reads a response.",
  ["src/lib.rs", "src/worker.rs"],
  [("response channel", "src/lib.rs InputOutput::read_*, try_read"), ("forwarding", "src/worker.rs Request::Custom")],
  observe=["sequence of responses at the reader"])

p("C16", "Suspension hands over a normal terminal and resumes seamlessly",
  "A function handed over for running outside the library runs exactly once, after all earlier output has been shown and before any later output, with the status, prompt and input erased, the cursor visible, wrapping on, attributes reset and the terminal in its original mode; when it returns, raw mode is back and the display and the line being edited are as before. Suspending the process with control-Z likewise restores the terminal before stopping, and on continuation the display is redrawn and typing works on the same line.",
  ["schedules", "histories"],
  "All states of the display and input, all sequences of suspensions mixed with output from several threads.",
  "No test suspends anything.",
  ["src/worker.rs", "src/term/cross.rs", "src/lib.rs", "src/unix_util.rs"],
  [("suspend/unsuspend", "src/term/cross.rs suspend, unsuspend"), ("request handling", "src/worker.rs SuspendAndRun, handle_suspend")],
  observe=["terminal settings and emulated screen from inside the function and while stopped"])

p("C17", "Styled lines are exactly what was put into them",
  "For any sequence of building operations (adding text, setting, toggling, activating or deactivating styles, setting colors, resetting, breaking, appending other lines), a line's text is the concatenation of the added texts with control characters expanded, and iterating over it yields every character once, at its byte index, with the style and colors that were active when it was added. The currently active style and colors reported are those last set. The building macros give lines equal to the corresponding method calls, and equality and serialization preserve all of it.",
  ["programs", "inputs"],
  "All sequences of building operations over all texts, styles and colors.",
  "Unit tests build three or four fixed lines.",
  ["src/line.rs", "src/lib.rs"],
  [("span bookkeeping", "src/line.rs append_text, set_style, set_colors, append_line"), ("iteration", "src/line.rs LineCharIterator"), ("macros", "src/lib.rs liso!, liso_add!")],
  observe=["public API of Line"])

p("C18", "Wrapping keeps all text and styles and respects the width",
  "Wrapping a line to a width never fails, and never loses, adds, reorders or restyles visible characters: it only inserts line breaks and removes spaces next to where a row ends; existing line breaks stay. No resulting row is wider than the width unless it is a single character too wide by itself. A line that fits is left alone, and a word (a run of ASCII letters and digits between spaces, its neighbours being letters or digits too) that fits on a row is not broken. The active style stays as it was.",
  ["inputs"],
  "All texts (any script, multi-byte, double-width, several line breaks, leading, trailing and repeated spaces), all styles, all widths from 1 up.",
  "Unit tests wrap five fixed texts, all but one plain ASCII without styles, and check styles only where no break changes the length.",
  ["src/line.rs"],
  [("break computation", "src/line.rs Line::wrap_to_width"), ("span adjustment", "src/line.rs erase_and_insert_newline")],
  observe=["public API of Line before and after wrapping; rows on the emulated screen for wrapped printing"])

p("C19", "ANSI text is interpreted as documented",
  "Text added with ANSI interpretation yields the same characters as the input with its SGR sequences removed, each styled as a conforming SGR interpreter restricted to the supported attributes would style it, continuing from the line's current style. Supported are reset, bold, dim, italic, underline and reverse, their off codes, the eight foreground and background colors and their defaults, with empty parameters meaning zero; other SGR codes (including extended colors with their arguments) are ignored without affecting neighbouring codes, and all other escape sequences are passed through as text. No input makes it fail.",
  ["inputs"],
  "All texts, including truncated, malformed and adjacent escape sequences, multi-byte characters anywhere, and any starting style.",
  "One unit test has two sequences in one fixed text.",
  ["src/line/add_ansi.rs"],
  [("SGR parser", "src/line/add_ansi.rs add_ansi_text")],
  observe=["public API of Line"])

p("C20", "Tab completion sees and changes the line exactly as specified",
  "Each press of the completion key calls the current completor exactly once with the current input, the cursor position in it, and the number of consecutive presses (counting only presses with no other key in between); other keys never call it. An insertion puts the text at the cursor and leaves the cursor after it, a replacement sets the whole line and cursor as given, and no completion changes nothing; whatever the completor outputs is shown. Setting or removing the completor takes effect for all later presses.",
  ["histories", "inputs"],
  "All sequences of keys, completor answers and completor replacements.",
  "No test installs a completor.",
  ["src/worker.rs", "src/completion.rs"],
  [("completion handling", "src/worker.rs handle_completion"), ("press counting", "src/worker.rs handle_input/handle_event")],
  observe=["arguments received by a recording completor, resulting input line"])

p("C21", "VT52-type terminals get equivalent service with VT52 sequences only",
  "On terminals identified as VT52-compatible, printing, status, prompt, editing and cursor placement work as on other terminals, using only VT52 sequences: screen contents, cursor position and cursor visibility are right after every operation, non-ASCII characters being shown as placeholders of the right width. The colors and inverse video sent are those of the terminal's palette for the line's colors. No input byte makes input or the program hang.",
  ["histories", "inputs", "configurations"],
  "All operation sequences as for other terminals, every supported VT52 terminal type and palette, all input bytes.",
  "No test uses the VT52 driver.",
  ["src/term/vt52.rs", "src/term.rs", "src/lib.rs"],
  [("VT52 driver", "src/term/vt52.rs"), ("terminal type selection", "src/term.rs new_term"), ("palettes", "src/lib.rs Color::to_atari*")],
  observe=["emulated VT52 screen"])

p("C22", "Captured stderr lines are shown once, whole and in order",
  "With stderr capture enabled on a terminal, every complete line written to standard error while an instance is alive is shown exactly once, in order, as a marked line above the prompt, whatever the sizes of the writes it arrives in. Text is never duplicated or invented, and shutting down restores standard error to the terminal.",
  ["inputs", "schedules"],
  "All splits of the stderr byte stream into writes, all line lengths, interleaved with regular output.",
  "The feature is only type-checked; no test runs it.",
  ["src/stderr_capture.rs", "src/worker.rs"],
  [("capture thread", "src/stderr_capture.rs attempt_stderr_capture"), ("restoration", "src/stderr_capture.rs wait_until_not_captured")],
  observe=["emulated screen; file description of fd 2 after shutdown"])

p("C23", "A panic in the program leaves the terminal usable",
  "If any thread of the program panics while an instance is active on a terminal, then by the time the panic message is printed the terminal is out of raw mode, the cursor is visible, line wrap is on, attributes are reset and what was below the cursor is erased, so that the message is readable. After the instance has been shut down, the program's panic handling is no longer affected by the library: panics then write nothing to the terminal.",
  ["fault_sequences", "histories"],
  "A panic at any moment in any thread, for any display state and terminal type, including inside library callbacks (completor, suspended function).",
  "No test panics with an active terminal.",
  ["src/term/cross.rs", "src/term/vt52.rs"],
  [("panic hook installation and removal", "src/term/cross.rs unsuspend/suspend")],
  observe=["terminal settings and emulator modes at the time of the message"])

p("C24", "Concurrent use is free of memory errors, data races and descriptor misuse",
  "Creating, using from many threads, suspending and shutting down instances never causes undefined behaviour: no data race, no use of invalid memory, and no closing, reuse or leak of file descriptors or signal handlers that are not the library's own. Standard input is the same open file after shutdown as before, and the program's handler for the hang-up signal is restored.",
  ["schedules", "histories"],
  "All interleavings of threads and all create/use/shutdown cycles in terminal and pipe mode.",
  "Tests do not run the code that manipulates descriptors and signals; no sanitizer is run.",
  ["src/unix_util.rs", "src/lib.rs", "src/worker.rs", "src/term/cross.rs"],
  [("descriptor and signal juggling", "src/unix_util.rs interrupt"), ("channels and locks", "src/lib.rs")],
  observe=["ThreadSanitizer and AddressSanitizer reports, fstat identity of fd 0-2, signal dispositions, fd table"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
