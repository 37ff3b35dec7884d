#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as a script so that wording stays reviewable).
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(d)

p("C01","Building a styled Line keeps exactly the text and attributes given, in order",
 "For every sequence of builder calls (add text, set/toggle/activate/deactivate/clear style, set colours, reset, reset_and_break, append another line, and the liso!/liso_add! macro equivalents) the line's text, byte length, emptiness, current style/colours, and per-character (byte index, character, style, fg, bg) iteration are exactly those of the calls applied in order. Each character carries the attributes active when it was added and appending a line reproduces that line's characters and attributes, after which the appended line's last attributes are active. Setting attributes to what they already are leaves the line equal to what it was. Two lines built with equal calls are equal, and lines with different text or per-character attributes are not.",
 ["inputs","programs"],"every sequence of builder calls with arbitrary Unicode text, styles and colours","a handful of doc-examples check one short macro each; the claim ranges over all call sequences and all text",
 ["src/line.rs","src/lib.rs"],[("add_text/append_text/set_style/set_colors/append_line/reset_and_break","src/line.rs"),("liso!/liso_add! macros","src/lib.rs"),("LineCharIterator","src/line.rs")],["Line::as_str/len/is_empty/get_style/get_colors/chars/=="],
 [("Line.elements","attribute spans partitioning the text","src/line.rs")])
p("C02","Control characters given as text are shown visibly and never reach the terminal",
 "Whatever text is given to any output, prompt, status, notice, or input line, every control character other than newline (C0, DEL, C1, U+2028, U+2029) is replaced by a visible form (^X for codes below 32, U+XXXX otherwise) with inverse video toggled around it, and all other characters are left as they were. The raw control character itself is therefore never written to the terminal or to piped output.",
 ["inputs"],"every string, at every place text can be supplied","the one doc-test covers a single \\x03; the space of characters, positions and entry points is unbounded",
 ["src/line.rs","src/worker.rs"],[("add_text control expansion","src/line.rs"),("rollout/output_line/pipe_worker printing","src/worker.rs")],["bytes on the terminal or pipe","Line::chars"])
p("C03","ANSI text: SGR codes become styles, everything else passes as plain text",
 "Adding ANSI text interprets every well-formed SGR sequence (ESC [ digits-and-semicolons m) with the documented meaning of each supported code, ignores unknown codes and the arguments of extended-colour codes, and leaves all other text, including unsupported or malformed escape sequences, exactly as if it had been added as ordinary text. It never panics and always terminates. (What a sequence with private or colon-separated parameters, or a truncated or malformed extended colour, means is not specified.)",
 ["inputs"],"every string over text, ESC, CSI parameter/intermediate/final bytes and Unicode","the existing test checks one string; malformed, truncated and adjacent sequences are unbounded",
 ["src/line/add_ansi.rs"],[("add_ansi_text","src/line/add_ansi.rs")],["Line::chars/get_style/get_colors after the call"])
p("C04","Wrapping to a width fits every row and loses no word, newline or attribute",
 "For every line and every width, wrapping terminates without panic and only replaces runs of spaces by newlines or inserts newlines: every other character survives, in order, with its own style and colours, and existing newlines stay. Afterwards no row is wider than the width (unless a single character is), breaks happen where a line may be broken (at spaces, and at the other opportunities of the Unicode line breaking rules) unless a word itself is wider than the width, and text that already fits is not broken.",
 ["inputs"],"every Unicode styled multi-line text and every width >= 1","the existing tests use a few ASCII sentences and widths; the claim needs wide/zero-width characters, spaces at edges, attribute boundaries and all widths",
 ["src/line.rs"],[("wrap_to_width, erase_and_insert_newline","src/line.rs"),("convert_subset_slice_to_range","src/lib.rs")],["Line::chars after wrap_to_width","screen after wrapln"])
p("C05","History keeps the newest lines, within the limit, with duplicates stripped",
 "For every sequence of additions, limit changes and duplicate-stripping changes, the stored lines are, oldest first, exactly the lines added, minus earlier copies of a line re-added while stripping is on, minus the oldest ones dropped whenever an addition would exceed the limit in force. The newest line added is always kept, and limit or stripping changes alone alter nothing until the next addition.",
 ["histories"],"every history of add/set_limit/set_strip_duplicates/read operations","no existing test exercises History; it is a history property",
 ["src/history.rs"],[("add_line, set_limit, set_strip_duplicates, get_lines","src/history.rs")],["History::get_lines"])
p("C06","History files survive crashes and failed writes, and read back what was saved",
 "A history saved and loaded again yields the same lines (for lines without line breaks), tolerating a leading byte-order mark and CRLF endings. If the process dies at any instant of an automatic save, or any file operation in it fails, loading afterwards yields either the complete previous history or the complete new one, and a save that did not complete is reported as an error and can be retried. A missing or empty file falls back to the backup, a missing file with no backup loads as empty, and any other read error is reported.",
 ["crash_points","fault_sequences","inputs"],"every contents, every crash point between or inside file operations, every I/O error at every operation","no existing test touches files, let alone crashes mid-save or injects write errors",
 ["src/history.rs"],[("from_file autosave handler: write temp, rotate backup, rename","src/history.rs"),("read_history_from/write_history_to","src/history.rs")],["files on disk; History::from_file afterwards; add_line's Result"])
p("C07","History autosaves on its interval and when dropped, and reports failures",
 "With an interval of N the autosave handler is called exactly when the Nth line since the last automatic save is added, seeing the history including that line, and its error is returned by that addition while the line stays in the history; with no interval, additions never autosave. (Attempts count whether or not they succeed; when the next automatic save is due after the interval or handler is changed while lines are pending is not specified.) When a history holding a handler is dropped, including when the InputOutput owning it goes away, the handler is called so that the final contents are saved. In the terminal, a failing save shows an 'Unable to write history' notice and the input line is still delivered.",
 ["histories","fault_sequences"],"every sequence of additions, interval/handler changes, handler failures and the final drop","no existing test uses autosave; it is a history and fault property",
 ["src/history.rs","src/worker.rs"],[("add_line autosave; drop","src/history.rs"),("handle_return error notice","src/worker.rs")],["handler invocations, add_line's Result, screen notice"])
p("C08","The terminal always shows printed lines, status, prompt and input exactly",
 "After any sequence of output, prompt, status, notice and editing operations has been processed, the terminal (scrollback plus screen) shows every printed line in order with its text, style and colours and nothing else, followed by the status line, the prompt and the current input (or the current notice in their place). Rows wrap only at the right margin, fills of inverse/underline/background extend to the margin, no stale cell remains, the terminal is never scrolled further than what there has been to show requires, and the cursor is at the input position, visible exactly when input is allowed and no notice is shown. When the terminal's width changes, this holds again, at the new width, from the next output on. (Combining marks are only compared in printed lines; the live area is assumed to be shorter than the screen; the terminal is assumed not to reflow what it already shows.)",
 ["histories","inputs","configurations"],"every sequence of operations, all styled Unicode text, all terminal widths, and terminals with or without background-colour erase","no existing test runs against a terminal; incremental redraw correctness depends on every (old content, new content) pair",
 ["src/worker.rs","src/term/cross.rs"],[("output_line, output_line_changes, rollin/rollout","src/worker.rs"),("set_attrs attribute tracking","src/term/cross.rs")],["bytes written to the PTY, interpreted by a terminal emulator"],
 [("remembered_output","what liso believes is on screen","src/worker.rs"),("cur_style/cur_fg/cur_bg","what liso believes the terminal's attributes are","src/term/cross.rs")])
p("C09","Concurrent output is never lost, duplicated, interleaved or reordered per thread",
 "Lines printed from any number of threads, through any mixture of cloned outputs and the global output()/println!/wrapln! facilities, each appear exactly once, unbroken, and in the order each thread printed them, even while the prompt, status and user input change. Everything printed before the InputOutput is dropped or shut down is on the terminal or pipe when that call returns.",
 ["schedules","histories"],"every interleaving of any number of printing threads, prompt/status changes, typing and shutdown","no existing test prints from threads or shuts down under load",
 ["src/lib.rs","src/worker.rs"],[("single request queue drained by one worker","src/worker.rs"),("drop / die / blocking_die","src/lib.rs")],["terminal transcript / pipe bytes after shutdown"])
p("C10","Line editing keys act on the input as documented and report the right responses",
 "For every sequence of keys, the text returned by Enter (and by Control-G) is the one obtained by applying each key (characters, cursor movement by whole visible characters, home/end, backspace/delete, kill to start/end/word and yank) to the line in order, and the cursor shown matches. Enter, Control-C/D/G/T/X, Control-backslash, Escape and other control keys produce exactly their documented responses in order, whose as_unknown value is the key's control code, and Control-D on a non-empty line clears it instead.",
 ["histories","inputs"],"every sequence of keys over arbitrary Unicode text","no existing test types anything; it is a property of key histories",
 ["src/worker.rs","src/lib.rs"],[("handle_input/handle_event and handle_* editing functions","src/worker.rs"),("Response::as_unknown","src/lib.rs")],["responses; terminal screen and cursor"])
p("C11","Input decoding ignores how bytes are chunked and survives malformed bytes",
 "Any byte stream from the terminal is decoded to the same keys however it is split into reads (a lone Escape being distinguished only by a pause), valid UTF-8 characters arrive as themselves, recognised escape sequences as their keys, and unknown CSI and two-byte escape sequences are swallowed whole. Malformed or truncated UTF-8 and escape sequences never crash, hang or permanently stop input: invalid bytes become replacement characters and later input still works.",
 ["inputs","schedules"],"every byte string and every way of splitting it","no existing test feeds bytes; the space of byte strings and splits is unbounded",
 ["src/term/cross.rs"],[("input_thread, parse_csi_sequence","src/term/cross.rs")],["responses for the typed bytes; continued liveness"])
p("C12","History recall moves through past lines and returns to the unfinished line",
 "Control-P/Up and Control-N/Down step to the adjacent older or newer history line (ringing the bell at either end), and stepping past the newest restores the unfinished line as it was before recall began, with the cursor at the end of the recalled line. This holds for every interleaving of recall, editing, submitting, discarding and clearing, and even when the program swaps in another history at any moment, in which case recall continues at the same line if it still exists (which of several equal lines is not specified); no sequence ever panics.",
 ["histories","schedules"],"every interleaving of recall keys, edits, submissions and history swaps","no existing test types anything; swap races need specific interleavings",
 ["src/worker.rs","src/lib.rs"],[("history_prev, history_next, BumpHistory","src/worker.rs"),("swap_history","src/lib.rs")],["responses and screen input after each key"],
 [("cur_history_index/orphaned_new_input/history_original_line","recall position","src/worker.rs")])
p("C13","Tab completion sees the real input state and its result is applied exactly",
 "Each Tab calls the installed completor exactly once with the current input text, cursor position and the number of consecutive presses (reset by any other key), and an insertion or whole-line replacement it returns is applied exactly, cursor included, while None changes nothing. Output the completor performs through its output handle appears as usual, and installing, replacing or removing a completor takes effect for the next Tab.",
 ["histories","inputs"],"every sequence of keys, completor results and completor changes","no existing test uses completion; it is a history property",
 ["src/worker.rs","src/completion.rs"],[("handle_completion, consecutive_completion_presses","src/worker.rs")],["completor arguments, responses, screen"])
p("C14","A notice replaces the prompt until its time, any key, or another notice",
 "A notice is shown in place of the prompt and input, beneath any status line, from the moment it is requested until its own duration elapses, the user presses any key, or another notice replaces it, whichever is first; then the prompt and input return intact. This holds for every sequence of notices with any durations, however many, and for output performed meanwhile; it never disappears early and never stops or crashes Liso. (Whether keys pressed while input is not allowed, or meaningless sequences, count is not specified.)",
 ["histories","schedules"],"every sequence and overlap of notices, durations, keys and output","no existing test shows a notice; it needs time, keys and repeated notices",
 ["src/worker.rs"],[("show_notice, dismiss_notice, heartbeat thread","src/worker.rs")],["screen over time"])
p("C15","Prompt and status changes take effect exactly as requested",
 "Setting the prompt shows exactly that prompt, with its final style applied to the input; input typed while input is disallowed is ignored, and re-allowing it takes effect immediately whether or not the prompt text changed. Existing input is kept unless clearing was requested, in which case the input and its cursor are reset, and typing continues correctly; the status line is the last one set, blank if set to empty text, or absent if removed.",
 ["histories"],"every sequence of prompt/status calls interleaved with typing","no existing test drives prompts against a terminal",
 ["src/worker.rs","src/lib.rs"],[("Request::Prompt / Request::Status handling, rollout","src/worker.rs")],["screen, cursor, responses"])
p("C16","In pipe mode, output is exactly the printed text and input exactly the lines",
 "In pipe mode, stdout receives exactly the text of each println/wrapln line followed by a newline, in order, promptly, and nothing for echo, status, notice, prompt or bell, with no styling. Every input line is delivered once, in order, without processing beyond removal of its line ending, for any input chunking, and after the last line the end of input is reported once rather than as endless empty lines. Custom messages and suspend_and_run work there too.",
 ["inputs","histories","schedules"],"every sequence of operations and every input byte stream and chunking, including end of file at any point","no existing test runs in pipe mode with real data; two doc-tests spin forever on EOF",
 ["src/worker.rs"],[("pipe_worker","src/worker.rs")],["stdout bytes; responses"])
p("C17","Pipe mode is used exactly when stdin or stdout is not a tty or TERM is dumb/pipe",
 "Liso uses pipe mode if stdin is not a terminal, or stdout is not a terminal, or TERM is exactly 'dumb' or 'pipe', and uses the interactive terminal mode in every other case, whatever stderr is and whatever else TERM holds. In pipe mode the terminal's settings are never changed and no escape sequence is written.",
 ["configurations"],"every combination of stdin/stdout/stderr kinds and TERM values","tests run in one environment only; the claim is over configurations",
 ["src/worker.rs","src/term.rs"],[("worker mode selection, is_pipe_term","src/worker.rs"),("new_term","src/term.rs")],["terminal attributes, bytes written"])
p("C18","Shutdown always restores the terminal, promptly, and later reads say Dead",
 "Dropping the InputOutput, die() or blocking_die(), at any moment and in any state, returns promptly, leaves the terminal with its original settings, cursor visible, attributes reset, line wrap on, and no prompt, status or input left on screen, and leaves printed lines intact. If the terminal hangs up, a reader gets Dead; after Dead no other response is ever received, and a program that keeps reading anyway panics on the ninth.",
 ["histories","schedules","fault_sequences"],"every state and moment at which shutdown or hangup happens","no existing test examines the terminal after shutdown or hangs one up",
 ["src/lib.rs","src/worker.rs","src/term/cross.rs","src/unix_util.rs"],[("Drop/die/blocking_die/report_death","src/lib.rs"),("rollin + cleanup","src/worker.rs"),("suspend/cleanup","src/term/cross.rs"),("InterruptibleStdinThread::interrupt","src/unix_util.rs")],["tcgetattr, screen, cursor, responses, elapsed time"])
p("C19","suspend_and_run and Control-Z hand over a clean, normal terminal and come back",
 "While a suspended function runs (or the process is stopped by Control-Z) the terminal has its original settings with the cursor visible, attributes reset and line wrap on, and for suspend_and_run the prompt, status and input are erased; the function runs exactly once, in order with other output. Afterwards the terminal is back in interactive mode and the status, prompt and input are redrawn below whatever whole lines were printed meanwhile, with nothing of it overwritten.",
 ["histories","schedules"],"every state in which suspension happens and everything the function prints","no existing test suspends",
 ["src/worker.rs","src/term/cross.rs"],[("SuspendAndRun, handle_suspend","src/worker.rs"),("suspend/unsuspend","src/term/cross.rs")],["tcgetattr inside the function, screen before/during/after, job-control stop"])
p("C20","VT52/Atari terminals show the same contents within their abilities",
 "On every TERM selecting the VT52/Atari engine, only VT52 escape sequences and 7-bit bytes are written, and the screen shows the same characters at the same places as on other terminals (each non-ASCII character as placeholder cells of its width), with colours and inverse mapped per the terminal's colour count and polarity setting. Typed ASCII input works as elsewhere, non-ASCII input bytes and VT52 escape sequences (in however many pieces they arrive) are discarded without effect, and shutdown is prompt.",
 ["inputs","histories","configurations"],"every operation sequence and input on every VT52-family TERM, size and polarity","no existing test selects the VT52 engine",
 ["src/term/vt52.rs","src/term.rs"],[("Vt52 Term implementation and input_thread","src/term/vt52.rs"),("new_term","src/term.rs")],["bytes on the PTY interpreted by a VT52 emulator, responses"])
p("C21","Responses are delivered once, in order, through every way of reading",
 "Every key response and custom message is received exactly once, in the order it was produced, whichever mixture of read_blocking, read_timeout, read_deadline, try_read and read_async is used, and custom payloads arrive unchanged. A timed read returns nothing only when its time has passed with nothing available, try_read never waits, and timing out or being cancelled loses nothing.",
 ["schedules","histories"],"every mixture of read calls, timeouts and cancellations, concurrent with senders and typing","no existing test reads concurrently; timeout/cancel races need schedules",
 ["src/lib.rs"],[("read_* / try_read over the response channel","src/lib.rs"),("send_custom / send_custom_box","src/lib.rs")],["sequence of responses returned"])
p("C22","One InputOutput at a time; after it is gone everything is as before and reusable",
 "While an InputOutput is alive a second cannot be created (it panics without disturbing the first) and output() returns a working handle; when none is alive output() panics and stale handles panic instead of printing. Creating, using and dropping InputOutputs repeatedly works every time and leaks no file descriptors, threads, signal handlers or panic hooks, and standard input and output work normally in between.",
 ["histories","schedules"],"every sequence of create/use/drop cycles, with and without pending input or output","existing doc-tests create at most one instance per process",
 ["src/lib.rs","src/unix_util.rs","src/term/cross.rs"],[("LISO_OUTPUT_TX guard, output()","src/lib.rs"),("InterruptibleStdinThread","src/unix_util.rs"),("panic hook save/restore","src/term/cross.rs")],["panics, /proc/self/fd, /proc/self/task, sigaction, panic hook, stdin reads"])
p("C23","Captured stderr lines each appear once, whole, in order, and stderr comes back",
 "With stderr capture enabled and stderr a terminal, every complete line written to stderr while Liso is active appears exactly once, in order and whole, as a decorated output line, for any line lengths, any chunking and any bytes, and never disturbs the prompt or input. Lines written just before the end are not lost either, and the end does not wait for child processes which inherited stderr. After Liso is gone, stderr is the original stream again, nothing is captured, and no file descriptor or thread is left behind; if stderr is not a terminal (or Liso is in pipe mode) it is left alone.",
 ["inputs","schedules","histories"],"every byte stream, chunking and number of create/drop cycles","no existing test enables the feature",
 ["src/stderr_capture.rs","src/worker.rs"],[("attempt_stderr_capture reader thread, wait_until_not_captured","src/stderr_capture.rs"),("Request::StderrLine","src/worker.rs")],["terminal transcript, fd 2 after drop"])
p("C24","Serialised lines read back equal, and behave identically",
 "With serialisation enabled, every line, colour and style serialises and deserialises to an equal value that has the same text and per-character attributes and can be extended and wrapped exactly like the original.",
 ["inputs"],"every line buildable through the API","no existing test uses the serde feature",
 ["src/line.rs","src/lib.rs"],[("derived Serialize/Deserialize for Line, Color, Style","src/line.rs, src/lib.rs")],["round-tripped value"])
p("C25","A panic while Liso is active leaves a usable terminal with the message readable",
 "If any thread panics while Liso controls the terminal, then before the panic message is printed the terminal is restored (original settings, cursor visible, attributes reset, wrap on, area below the cursor cleared), and the message is printed exactly once. Liso can still be shut down afterwards without hanging. After Liso is shut down or while it is suspended, the previously installed hook is back in place and is the one that runs.",
 ["fault_sequences","histories"],"every state at which, and thread on which, a panic occurs","no existing test panics under Liso",
 ["src/term/cross.rs","src/term/vt52.rs"],[("panic hook installed by unsuspend, removed by suspend","src/term/cross.rs")],["tcgetattr and screen when the hook runs"])
p("C26","Each bell request rings exactly once, promptly, and changes nothing on screen",
 "Every bell request, whether from the program or from history recall at either end, makes the terminal receive exactly one bell character without waiting for any later operation, in order with other output, and changes neither screen contents nor the cursor. In pipe mode it produces nothing.",
 ["histories"],"every placement of bell requests among other operations","no existing test rings a bell",
 ["src/worker.rs","src/term/cross.rs"],[("Request::Bell, history_prev/next","src/worker.rs"),("bell","src/term/cross.rs")],["bytes on the PTY"])
p("C27","Fill-equality of styled characters is never wrongly claimed",
 "Two styled characters are said to fill the rest of a line identically exactly if blank cells painted with their attributes look identical on every terminal: the same inverse, underline and visible background, the same underline colour if underlined, and, under inverse or underline, the same boldness and dimness.",
 ["inputs"],"every pair of (style, fg, bg) combinations (finite: enumerated exhaustively)","no existing test covers it; the space has 6.7 million pairs",
 ["src/line.rs"],[("LineChar::endfills_same_as","src/line.rs")],["LineChar::endfills_same_as result"])
p("C28","Leaving out optional features removes only those features",
 "With any of the Cargo features wrap, history, completion, global, serde and capture-stderr switched off, everything that the remaining features provide works as with the defaults: output, prompt, status, notices, editing, responses, suspension, shutdown, pipe mode and the one-instance-at-a-time rule. Without history, Control-N and Control-P are reported as unknown keys and Up and Down do nothing; without completion, Tab only rings the bell.",
 ["configurations","histories","inputs"],"every combination of features, and every session as for C08, C10 and C16 under it","the existing tests are only ever run with one set of features, and start no session under any",
 ["src/lib.rs","src/worker.rs"],[("#[cfg(feature = ...)] sections","src/worker.rs"),("#[cfg(feature = ...)] sections","src/lib.rs")],["terminal screen and cursor, responses, pipe bytes of binaries built without some of the features"])
p("C29","Keys have the same effect whoever reads them",
 "The environment variable LISO_CROSSTERM_INPUT selects whether Liso reads keys itself (0, no, false: the default, except on Windows) or through crossterm (1, yes, true). Either way every documented key, every other control character and all text have the same effect on the input line, responses, history and screen, reports of keys being released do nothing, text in a bracketed paste is as if typed, and sessions, suspension, Control-Z and shutdown work the same, also if only the beginning of a character or escape sequence has arrived. Any other value of the variable is reported on stderr, and ignored.",
 ["configurations","inputs","histories"],"every value of the variable, and every session as for C12, C14 and C10 under it","the existing tests never read a key, and never with crossterm",
 ["src/term/cross.rs","src/worker.rs"],[("Crossterminal::new, parse_csi_sequence, input_thread","src/term/cross.rs"),("TtyState::handle_event, handle_input","src/worker.rs")],["responses, terminal screen and cursor, time to shut down, stderr"])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(P))
