c("C02", "runtime monitoring: terminal emulator on a pty against a reference screen model, random walks of output calls and keys")
c("C04", "runtime monitoring: reference line editor run beside the real one on a pty, line and cursor probed through a recording completor, the screen and the delivered line")
c("C05", "runtime monitoring: response stream of the program against the key table, over random key/byte chunkings")
c("C06", "runtime monitoring: byte streams (all lengths-1/2/3 code points, malformed and truncated sequences, every split) typed on a pty, decoded line compared with a reference decoder")
c("C07", "runtime monitoring: reference model of history browsing against real sessions, with the history replaced in races held open by a gate in a completor")
c("C20", "runtime monitoring: calls recorded by an instrumented completor against a reference editor")
c("C01", "runtime monitoring: concurrent tagged output observed on an emulated terminal, checked against per-thread order and happens-before between threads")
c("C03", "runtime monitoring: attributes of every cell of an emulated terminal against a reference, over runs of attribute changes and control characters")
c("C08", "runtime monitoring: the real History type run beside a reference model, handlers and files observed after every operation", "exploration", INPROC)
c("C09", "runtime monitoring under fault injection: interposed file operations turned one by one and in pairs into crashes, errors and short writes, SIGKILL at random moments; histories then loaded are compared with the lines saved", "fault_enumeration")
c("C17", "runtime monitoring: the real Line type run beside a reference list of styled characters, through methods and macros", "exploration", INPROC)
c("C18", "runtime monitoring: wrapped lines compared gap by gap with the originals by an independent oracle (random, and exhaustive for short texts)", "exploration", INPROC)
c("C19", "runtime monitoring: texts interpreted by the real code and by an independent SGR interpreter (random, and exhaustive for short texts)", "exploration", INPROC)
c("C10", "runtime monitoring: timing of notices, bells and status changes observed on an emulated terminal against their specified windows")
c("C11", "runtime monitoring: prompt, echo and input-allowed flags over random call sequences against a reference model")
c("C12", "runtime monitoring: bytes on the output and responses in all pipe-mode configurations against the specified ones, for random calls, input bytes and chunkings")
c("C15", "runtime monitoring: integrity-checked custom values and input lines read by mixtures of all reading methods, checked for exactly-once delivery, order and timing")
c("C21", "runtime monitoring: VT52 terminal emulator (Atari colors and all) against a reference screen model, random walks of output calls and keys")
c("C13", "runtime monitoring: terminal settings, modes, screen, cursor, descriptors, threads, signal handler and the program's own I/O observed after shutdowns in random states and under stress")
c("C14", "runtime monitoring: reads, output calls and creations on dying, dead, second and raced instances observed in a real process, hang-ups injected at random moments")
c("C16", "runtime monitoring: terminal settings, emulated modes and screen observed from inside suspended functions held open by gates and while stopped by control-Z; order and number of functions and lines from several threads")
c("C23", "runtime monitoring under fault injection: panics in every kind of place; emulated terminal at the first byte of the message, hook and input afterwards")
c("C22", "runtime monitoring: terminal emulator and reference screen model over random and adversarial writes to a captured standard error, exactly-once over the lines of several threads, descriptors and threads after every shutdown")
c("C24", "sanitizers and runtime monitoring: ThreadSanitizer (standard library included) and AddressSanitizer builds under multithreaded use and shutdown; a preloaded monitor of descriptor operations with injected delays, a competing thread that opens and closes descriptors, comparison of descriptors, threads and signal dispositions")
