#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [dict(zip(("name", "meaning", "where"), s)) for s in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Receiver stream decoding is exact and resynchronises after garbage",
 "For every byte stream a receiver delivers, in every segmentation into reads, the decoder returns exactly the well-formed Beast frames of the stream, in order: type, 48-bit timestamp, signal level, payload and the verbatim (still escaped) raw bytes, with each doubled escape byte decoded to one. Malformed, truncated or unknown data is skipped without ever producing a frame that is not in the stream, and decoding resumes with the next complete frame. Each loss of synchronisation and each frame of unknown type is counted once. A lost connection ends the stream and leaves no residue that corrupts frames of the next connection.",
 ["inputs", "fault_sequences"],
 "all byte streams (frames of all types, escapes at every position, garbage, truncations), all read segmentations, disconnects at every position",
 "test_radarcape feeds a few hand-written frames and fixed splits; the stream and segmentation space is unbounded",
 ["src/radarcape/rc-parser.c", "src/core/openskytypes.h"],
 [("INPUT_getFrame / decode: 128 byte receive buffer, escape handling, synchronisation", "src/radarcape/rc-parser.c")],
 ["INPUT_getFrame return value and both output frames", "statistics log lines"])

prop("C02", "Hostile receiver, GPS and server input cannot corrupt the process",
 "Whatever bytes arrive from the Mode-S receiver, the GPS unit or the collection server, in whatever segmentation, the process neither reads nor writes outside its own objects, executes no undefined operation, and does not abort or stop making progress. Every packet is either handled as specified or dropped.",
 ["inputs"],
 "all byte sequences on the receiver stream, the GPS stream and the talkback stream; all read segmentations",
 "unit tests run without sanitizers on well-formed input and a few malformed cases",
 ["src/radarcape/rc-parser.c", "src/trimble/trimble_parser.c", "src/trimble/trimble_recv.c", "src/core/tb.c", "src/core/filter.c", "src/radarcape/tb-misc.c", "src/radarcape/tb-rshell.c", "src/dump1090/req-serial.c"],
 [("buffer bounds in the three stream parsers", "rc-parser.c, trimble_parser.c, tb.c"), ("length/type validation before dispatch", "tb.c, trimble_recv.c")],
 ["ASan/UBSan reports", "process exit status", "progress of the reading thread"])

prop("C03", "Escape encoding is exact, bounded and lossless",
 "Encoding any byte string for the wire doubles each escape byte (0x1a) and copies every other byte unchanged and in order; it returns the exact encoded length, never more than twice the input, and writes nothing beyond that length. Decoding the result by collapsing doubled escapes yields the input, so no encoded body can contain a lone escape that a peer would take for a frame start.",
 ["inputs"],
 "all byte strings up to and beyond the frame sizes used, with escape bytes at every subset of positions",
 "encoding is only exercised through a few GPS positions; positions of escapes are exponentially many",
 ["src/core/beast.c", "src/core/beast.h"],
 [("BEAST_encode", "src/core/beast.c")],
 ["return value and output bytes of the encoder, bytes after the reported end"])

prop("C04", "Frame filter forwards exactly what the configured policy allows",
 "A frame is forwarded exactly if it is a Mode-S short or long frame and, when the synchronisation filter is on, the receiver has reported a synchronised clock since the last reset, and, when the extended-squitter filter is on, its downlink format is 17 or 18; every change of the two filter settings, of the synchronised state and every reset takes effect from the next frame on. The counters account for every frame offered: all by type, unsynchronised ones, Mode-S frames that pass the synchronisation filter by downlink format, all dropped ones, and those dropped for their format.",
 ["inputs", "histories", "configurations"],
 "all frame types and first bytes, all interleavings of setting changes, synchronisation changes and resets, all initial configurations",
 "no test drives the filter over histories of configuration changes; test_recv uses a fixed configuration",
 ["src/core/filter.c", "src/core/filter.h", "src/core/recv.c"],
 [("FILTER_filter, FILTER_setSynchronized, FILTER_reset, FILTER_setSynchronizedFilter, FILTER_setModeSExtSquitter", "src/core/filter.c")],
 ["return value of the filter", "FILTER_getStatistics"])

prop("C05", "Frame buffer is a bounded FIFO that drops only the oldest at capacity",
 "For every sequence of produce, commit, abort, consume, put back, release, flush and garbage-collection operations, frames come out unmodified in commit order with put-back frames first; a buffered frame is lost only through an explicit flush, or as the oldest one when all configured capacity (the static pool plus, with history enabled, the maximum number of dynamic pools) is in use. Getting a frame to fill always succeeds as long as memory for growing is available or not, and the reported queue, pool, discard and flush statistics match these events exactly.",
 ["histories", "configurations", "fault_sequences"],
 "all single-threaded operation histories, all pool configurations including the smallest, allocation failures at any growth step",
 "test_buffer has a few dozen fixed scripts with fixed pool sizes",
 ["src/core/buffer.c", "src/core/buffer.h", "src/util/list.h"],
 [("getFrameFromPool, BUF_commitFrame, BUF_putFrame, BUF_releaseFrame, BUF_flush", "src/core/buffer.c")],
 ["frames returned by BUF_getFrame/BUF_getFrameTimeout", "BUFFER_getStatistics"],
 [("pool", "unused frames", "buffer.c"), ("queue", "committed frames", "buffer.c"), ("dynPools", "dynamically allocated pools", "buffer.c")])

prop("C06", "Producer and consumer share the buffer safely under every schedule",
 "While one producer, one consumer, flushes and the garbage collector run concurrently, every committed frame is consumed at most once, unmodified and in commit order, and frames are missing only if discarded at capacity or flushed. A waiting consumer is woken by every commit, a consumer waiting with a timeout returns empty-handed only after at least that time with nothing to deliver, and no two threads access a frame or the queues without synchronisation.",
 ["schedules"],
 "all interleavings of producer, consumer, flush, GC and statistics threads, including cancellation of a waiting consumer",
 "test_buffer is nearly single threaded; schedules cannot be enumerated by unit tests",
 ["src/core/buffer.c"],
 [("mutex/cond protocol around queue and pool", "src/core/buffer.c"), ("cleanup handler releasing the lock on cancellation", "src/core/buffer.c, src/util/threads.h")],
 ["event log of committed and consumed sequence numbers", "TSan reports", "wait durations"])

prop("C07", "Garbage collection returns unused memory and never a frame in use",
 "After a backlog has been drained, garbage collection frees every dynamically added pool none of whose frames is queued or in use, and everything is freed when the buffer is destructed. Collection never frees, duplicates or loses a frame that is queued, being filled or being consumed, and collected memory becomes usable again for new frames before any frame is discarded. The automatic collector acts only when the queue is shorter than the configured fraction of the dynamic capacity.",
 ["histories", "schedules", "configurations"],
 "all histories of bursts, drains and collections; collections at every point, including between taking and returning a frame; all collector settings",
 "test_buffer collects at a handful of fixed points without a memory checker",
 ["src/core/buffer.c"],
 [("collectPools, uncollectPools, destroyUnusedPools", "src/core/buffer.c"), ("mainloop threshold", "src/core/buffer.c")],
 ["interposed malloc/free of pools", "ASan reports", "BUFFER_getStatistics"])

prop("C08", "Messages reach the server whole, in order and never interleaved",
 "Every message whose sending was reported as successful is delivered to the kernel byte for byte as one contiguous run of the connection's byte stream, whatever partial writes the socket performs and however many threads send at once; on one connection nothing is duplicated, reordered or taken from outside the message. A message that fails, or whose thread is cancelled meanwhile, leaves at most a proper prefix of itself as the last bytes of that connection; the byte counters equal the bytes received and the bytes of the completely sent messages.",
 ["schedules", "fault_sequences", "inputs"],
 "all message sizes, all patterns of short writes and errors, all interleavings of sending threads",
 "no test opens a real connection or makes the socket accept only part of a message",
 ["src/core/network.c"],
 [("trySend loop, sendMutex", "src/core/network.c")],
 ["bytes accepted by the (interposed) socket per connection", "return values of NET_send"])

prop("C09", "Connection always recovers, with one connection and no stale descriptor",
 "After any connection loss, whichever of the sending and receiving side notices first, after a reconnection was forced, and after any failed attempt, the client abandons the old connection, closes its descriptor exactly once, and establishes a new one as soon as the server accepts; senders and receivers never use a closed descriptor, fail when there is no connection (waiting at most for a running attempt), and those waiting for the connection are all woken. Asking whether the connection is still up, and the counted online time, tell the truth. It never has two usable connections, never aborts, and starts a new attempt only after the retry pause following a failed one.",
 ["schedules", "fault_sequences", "histories"],
 "all orders of failure detection and re-connection of sender, receiver, position sender and forced disconnects; server resets, half closes and refusals at any point",
 "no test covers the connection state machine at all",
 ["src/core/network.c", "src/util/net_common-posix.c"],
 [("connState/transState machine: emitDisconnect, mainloop, tryConnect", "src/core/network.c")],
 ["interposed connect/close/send/recv calls with descriptor ownership", "server side accept log"])

prop("C10", "Relay delivers buffered frames once, in order, across reconnects",
 "On every connection the server sees the login, then frames in the order they were committed, each complete; a frame whose sending failed is sent again first on the next connection when history is enabled, and with history disabled a new connection starts with frames committed after it was set up. No frame is ever delivered twice on the same connection or out of order, and when nothing is to be sent for the configured interval a keep-alive is sent instead.",
 ["schedules", "fault_sequences", "histories"],
 "all arrival patterns of frames, all points of connection loss, history on and off, all keep-alive intervals",
 "there is no relay test; needs a server that fails at arbitrary points",
 ["src/core/relay.c", "src/core/buffer.c", "src/core/network.c", "src/core/login.c"],
 [("relay mainloop: putFrame on failure, releaseFrame on success, keep-alive on timeout", "src/core/relay.c"), ("BUF_flushUnlessHistoryEnabled", "src/core/buffer.c")],
 ["byte stream per connection at a fake server", "commit log"])

prop("C11", "Each connection starts with one complete, well-formed login",
 "Every new connection begins with exactly device id (type and version as built), serial number, position if it is known and there is a fix, and user name if one of at most 40 characters is set, in that order, each correctly framed and escaped, before any frame data; the user name is padded with zero bytes to its fixed width. If any part cannot be obtained or sent, login reports failure, nothing after the failed part is sent and the connection is given up. A serial number that cannot be obtained never results in a login with a made-up one: the feeder gives up, or, if only the network failed meanwhile, the login fails.",
 ["inputs", "configurations", "fault_sequences"],
 "all device types, serial numbers, user names and positions (including bytes needing escapes), failure at each step",
 "no test runs the login exchange",
 ["src/core/login.c", "src/core/gps.c", "src/core/beast.c"],
 [("LOGIN_login, sendDeviceID, sendSerial, sendUsername", "src/core/login.c")],
 ["bytes handed to the network layer"])

prop("C12", "Position is sent when due, current, complete and only with a fix",
 "A position message is sent only when a position was set and a fix is present, and carries the latest latitude, longitude and altitude bit-exactly as big-endian doubles with escapes; without one, the request is remembered and answered once, by the next update with a fix whose message can be sent. Loss of fix or a reset stops sending until a new position with a fix is there but does not withdraw a remembered request; every login withdraws the request of the previous connection and requests the position anew, and a concurrent update never yields a mix of two positions.",
 ["histories", "schedules", "inputs"],
 "all sequences of set position, set fix, reset, connect and send requests; all doubles; concurrent setters",
 "test_gps covers some fixed orders with a stub network, no concurrency and no arbitrary doubles",
 ["src/core/gps.c", "src/core/login.c"],
 [("needPosition flag, hasFix/hasPosition gating, sendPosition", "src/core/gps.c")],
 ["bytes handed to the network layer per event"])

prop("C13", "Server commands are framed exactly and dispatched at most once",
 "From the stream of server packets, in every segmentation, each well-formed packet is passed exactly once and in order to the handler registered for its type with exactly its payload, and only if the payload length is the registered one; packets of unknown type, unregistered type or wrong length are skipped without affecting the following ones. A packet with an impossible length drops what is buffered and never reaches a handler, and data of one connection is never combined with that of the next.",
 ["inputs", "histories"],
 "all packet sequences with valid and invalid types and lengths, all segmentations, reconnects at any byte",
 "no test exists for the talkback channel",
 ["src/core/tb.c", "src/core/tb.h"],
 [("receive loop, header validation, dispatch table", "src/core/tb.c")],
 ["handler invocations with payload", "NET_receive interposition"])

prop("C14", "Remote commands do exactly what was ordered and nothing else",
 "A remote filter command changes exactly the settings selected by its mask to the given values (resets the synchronisation when it says so, and asks the receiver to reconfigure when it selects the squitter setting), leaving the others untouched. A remote shell, restart, reboot or upgrade command runs exactly its fixed program with its fixed arguments, the shell with the address and port from the packet, and only where that command is enabled; no other packet ever starts a program. No child process started for a command runs the daemon's own threads, commands or exit handlers. Programs started for commands inherit none of the daemon's connections and devices.",
 ["inputs", "configurations", "histories"],
 "all payloads of all command types, all prior filter settings, commands in any order",
 "no test sends commands; effects are process executions that unit tests avoid",
 ["src/core/tb.c", "src/radarcape/tb-misc.c", "src/radarcape/tb-rshell.c", "src/util/proc.c", "src/core/filter.c"],
 [("packetConfigureFilter", "src/core/tb.c"), ("packetReboot, packetRestart, packetUpgrade", "src/radarcape/tb-misc.c"), ("startRSHELL", "src/radarcape/tb-rshell.c")],
 ["FILTER_getConfiguration", "recorded exec calls", "calls to INPUT_reconfigure"])

prop("C15", "Configuration files are read exactly or rejected, never misread",
 "Reading a configuration file assigns to every option exactly the last valid value given for it in its section (ignoring comments, blank lines, surrounding blanks, and unknown sections or options) and leaves all others as they were; invalid or out-of-range values are reported with the line they are in and, as selected by the caller, either replaced by the default or make reading fail. This holds for every file content, including empty lines, missing values, missing final newline and arbitrary bytes, without invalid memory accesses.",
 ["inputs", "configurations"],
 "all file contents (grammar-generated and mutated), all option types and sections, both error policies, files and directories of files",
 "no test exists for the configuration parser",
 ["src/util/cfgfile.c", "src/util/cfgfile.h", "src/util/port/mmap-posix.c"],
 [("readCfg, parseSection, parseOption, parse* value parsers", "src/util/cfgfile.c")],
 ["values of the configured variables, return values", "ASan/UBSan reports"])

prop("C16", "A saved configuration reads back identically and save errors are reported",
 "Writing the configuration, or one section of it, and reading the file back restores the value of every option of every type that was written. When the file cannot be written completely, writing reports failure; a value set programmatically is stored only in the option it names, converted and truncated to fit as documented.",
 ["inputs", "configurations", "fault_sequences"],
 "all option values, all section layouts, write errors at every point (missing directory, full device)",
 "no test writes configuration files",
 ["src/util/cfgfile.c"],
 [("CFG_write, CFG_writeSection, writeOption, CFG_set*", "src/util/cfgfile.c")],
 ["file content and values after re-reading", "return values"])

prop("C17", "Components are constructed, started and torn down in dependency order",
 "Every enabled component is constructed and started exactly once and only after all components it depends on, and is stopped and destructed exactly once in the reverse order. If construction or starting of one fails, exactly those already constructed or started are undone in reverse order and the failure is reported; disabled components are never run, and components whose stop is deferred are retried as long as any progress is made. A cyclic dependency or one on a disabled component is refused.",
 ["configurations", "fault_sequences", "histories"],
 "all acyclic dependency graphs, registration orders, enable/start flags, failures at every step, repeated start/stop cycles",
 "no test exists for the component registry",
 ["src/util/component.c", "src/util/component.h"],
 [("COMP_register, COMP_fixup, COMP_initAll, COMP_startAll, COMP_stopAll, COMP_destructAll", "src/util/component.c")],
 ["callback trace of instrumented components"])

prop("C18", "The feeder can be stopped at any moment and started again",
 "Stopping the feeder at any moment, whatever its threads are doing (connecting, logging in, sending, receiving, waiting for data or for a connection), ends all its threads in bounded time without deadlock, crash or use of freed resources; afterwards no thread or descriptor of it remains. It can then be started again and works as from a fresh start, any number of times.",
 ["schedules", "crash_points", "histories"],
 "stops at arbitrary points of connect, login, transfer, reconnect and idle phases; repeated cycles; server present, absent, hanging",
 "tests never stop running components",
 ["src/util/component.c", "src/core/network.c", "src/core/relay.c", "src/core/tb.c", "src/core/recv.c", "src/core/buffer.c", "src/radarcape/lib/opensky.cc", "src/gplib/opensky.cc"],
 [("cancellation with cleanup handlers in every thread", "network.c, relay.c, tb.c, recv.c"), ("stop/join in component registry", "src/util/component.c")],
 ["time to stop", "thread and descriptor counts", "frames delivered after restart"])

prop("C19", "GPS receiver packets are framed exactly under any byte stream",
 "From any byte stream of the GPS unit in any segmentation, the packet reader returns exactly the packets delimited by a start (DLE and a byte other than DLE and ETX) and an unescaped end marker, with doubled escape bytes collapsed, in order; malformed packets and those not fitting the buffer are dropped as a whole and reading continues with the next one.",
 ["inputs", "fault_sequences"],
 "all byte streams with escapes and markers at all positions, packet lengths around the buffer limit, all segmentations, disconnects",
 "no test exists for the Trimble parser",
 ["src/trimble/trimble_parser.c", "src/trimble/trimble_parser.h"],
 [("TRIMBLE_PARSER_getFrame", "src/trimble/trimble_parser.c")],
 ["returned packets"])

prop("C20", "Only trustworthy GPS positions are published",
 "A position reported by the GPS unit is published exactly when the unit has no critical alarm, is not in test mode or in self survey, is in a full-position mode with a valid disciplining and decoding status, and then equals the reported latitude and longitude in degrees and altitude; fix and position are withdrawn on every (re)connection of the unit. No other packet, no packet of wrong length and no status not meeting the conditions changes what is published.",
 ["inputs", "histories"],
 "all status and position packets in all orders, all field values",
 "no test exists for GPS reception",
 ["src/trimble/trimble_recv.c", "src/core/gps.c"],
 [("packet handlers and status gating", "src/trimble/trimble_recv.c")],
 ["calls of the position interface"])

prop("C21", "Serial numbers are stable, truthful and persisted when assigned",
 "A sensor identifies itself with its configured serial number or, where none is configured, with the one derived from the network hardware address (same address, same number) or assigned by the server; an assigned number is requested once per need, stored in the configuration directory and used unchanged from then on, including after a restart. If none can be obtained, failure is reported and no number is invented; a lost connection during a request ends it as a network failure.",
 ["inputs", "fault_sequences", "histories"],
 "all hardware addresses and interface failures, all assigned numbers, connection loss and unwritable storage at any point, restarts",
 "no test covers serial number handling (tests stub it)",
 ["src/util/serial_eth.c", "src/dump1090/req-serial.c", "src/core/login.c"],
 [("SERIAL_ETH_getSerial, getMac*", "src/util/serial_eth.c"), ("SERIAL_getSerial: request, wait, save", "src/dump1090/req-serial.c")],
 ["returned serial, bytes sent, stored file", "interposed ioctl/open"])

prop("C22", "Radarcape library API turns each accepted message into the exact frame",
 "For every message handed to the radarcape library, the frame that reaches the buffer is the escaped encoding of exactly that type, timestamp, level and payload, or none if the message is of an unsupported type or filtered; GPS and time status updates affect synchronisation, fix and position exactly as specified. Calls while the library is disabled have no effect, and calls concurrent with the feeder's own threads are safe.",
 ["inputs", "histories", "schedules"],
 "all message types, payloads and levels, all status values, all orders with enable/disable",
 "test_lib drives a few fixed messages",
 ["src/radarcape/lib/opensky.cc", "src/radarcape/lib/opensky.hh"],
 [("output_message, setGpsTimeStatus, setGpsPosition, enable/disable", "src/radarcape/lib/opensky.cc")],
 ["frames taken from the buffer / received by a fake server"])

prop("C23", "Generic library API submits only valid frames, exactly encoded",
 "A frame submitted to the generic library is accepted only if the feeder is configured and enabled, its payload is 7 or 14 bytes long, it is marked as timed by UTC and the filter allows it; then exactly one frame with the matching type, timestamp, level and payload, correctly escaped, reaches the buffer. Every other submission has no effect. Position updates set fix and position exactly as given.",
 ["inputs", "histories"],
 "all payload lengths and contents, timestamps, levels, feeder states",
 "no test exists for the generic library",
 ["src/gplib/opensky.cc", "src/gplib/opensky.hh"],
 [("submitFrame", "src/gplib/opensky.cc")],
 ["frames taken from the buffer / received by a fake server", "return values"])

prop("C24", "Container lists behave as sequences under all operation histories",
 "All four list kinds (singly/doubly linked, with and without counting) behave as the abstract sequence under every history of push, shift, unshift, pop, insert, unlink, concatenate, cut and iteration: same elements, order, length, emptiness and neighbours, with links intact in both directions.",
 ["histories", "inputs"],
 "all operation histories on several lists of every kind",
 "test_list checks each operation on fixed small lists, not compositions",
 ["src/util/list.h"],
 [("LIST_* macros and inline functions", "src/util/list.h")],
 ["list content after every operation vs model", "ASan/UBSan"])

prop("C25", "Log records are whole, labelled lines; fatal ones end the process",
 "Every log call writes its complete message as one contiguous, correctly labelled record, whatever its length and however many threads log at once; a fatal record is written and then terminates the process abnormally, and no other level does. Logging an error number describes exactly that error. (The library back ends hand each record whole to the host's stream and cut one longer than 2047 bytes.)",
 ["schedules", "inputs"],
 "all message lengths and contents, all levels, concurrent loggers, cancellation of a logging thread",
 "no test examines log output",
 ["src/util/log_stdio.c", "src/radarcape/lib/log_lib.cc", "src/gplib/log_lib.cc"],
 [("LOG_log, LOG_logf, LOG_errno with lock", "src/util/log_stdio.c")],
 ["captured log stream", "exit status"])

prop("C26", "FPGA is programmed with exactly the file's bits or failure is reported",
 "Programming shifts every bit of the bitstream file, least significant bit of each byte first, into the device with one clock pulse per bit after the reset handshake, and reports success only if the device signals configuration done; otherwise it retries up to three attempts in total and then reports failure. The file is the one of that absolute name if there is one, else the one of that name in the firmware directory, never one of the working directory. Any file name, missing file or unresponsive device leads to a clean failure.",
 ["inputs", "fault_sequences", "configurations"],
 "all file contents and names, device timing and failure behaviour at every handshake step",
 "no test has a device",
 ["src/radarcape/fpga.c", "src/radarcape/gpio.c"],
 [("program, transfer, tryProgram", "src/radarcape/fpga.c")],
 ["simulated GPIO device recording pin transitions"])

prop("C27", "GPIO operations touch exactly the addressed pin",
 "Setting, clearing, reading or switching the direction of a pin accesses only the register and bit of that pin and leaves every other pin of all controllers as it was; the hardware watchdog pin is pulsed at least every 30 seconds for as long as the watchdog runs.",
 ["inputs", "histories"],
 "all 128 pins, all operation histories, all prior register contents",
 "no test accesses the memory-mapped registers",
 ["src/radarcape/gpio.c", "src/radarcape/watchdog.c"],
 [("GPIO_set, GPIO_clear, GPIO_read, GPIO_setDirection", "src/radarcape/gpio.c"), ("watchdog mainloop", "src/radarcape/watchdog.c")],
 ["simulated register file behind the mapping"])

prop("C28", "Starting external programs runs exactly them and reports the truth",
 "An external program is started with exactly the given path and arguments; where the caller waits, success is reported exactly if the program ran and exited with status zero, and failure to start, a non-zero status or death by signal is reported as failure. A child never returns into the caller's code nor runs the caller's exit handlers, and no zombie stays behind a waited-for child or one started in the background. The program gets an empty environment; one started in the background is detached from the caller.",
 ["inputs", "fault_sequences"],
 "all argument vectors, exit codes, signals, missing programs, fork failures",
 "no test starts programs",
 ["src/util/proc.c"],
 [("PROC_execAndReturn, PROC_forkAndExec, PROC_execRaw, PROC_fork", "src/util/proc.c")],
 ["argv/exit status seen by a recording program", "return values"])

prop("C29", "Connecting tries every address and leaks nothing",
 "Connecting to a host and port succeeds if and only if one of the host's IPv4 or IPv6 addresses accepts; each address is tried at most once, none after one accepted, in an order that varies. The result is the connected socket; every other descriptor opened meanwhile is closed again, also if the thread is cancelled while connecting, and failure of all is reported.",
 ["inputs", "fault_sequences"],
 "all address lists, refusal or socket failure at any address, resolver errors, cancellation",
 "no test opens connections",
 ["src/util/net_common-posix.c", "src/util/port/socket.h"],
 [("NETC_connect, tryConnect", "src/util/net_common-posix.c")],
 ["interposed getaddrinfo/socket/connect/close"])

prop("C30", "The running feeder is free of data races on frame and session data",
 "With all threads of a feeder running against a live receiver and server, including reconnects, remote commands, position updates and statistics, all accesses to frames, queues, connection state and positions are ordered by synchronisation, and no lock order can deadlock.",
 ["schedules"],
 "all interleavings of receiver, relay, talkback, network, GPS, GC and statistics threads",
 "tests run components one at a time and without a race detector",
 ["src/core/network.c", "src/core/buffer.c", "src/core/gps.c", "src/core/relay.c", "src/core/recv.c", "src/core/tb.c", "src/util/statistics.c"],
 [("mutexes in network, buffer, gps, log", "src/core, src/util")],
 ["TSan reports over the integrated feeder"])

prop("C31", "A started feeder daemon forwards its receiver's traffic end to end",
 "Started with a valid configuration, the feeder daemon connects to the configured receiver and server, logs in, and forwards exactly the receiver's frames that the filter admits, byte-identical and in order, through receiver and server outages; with an invalid configuration it refuses to start with a failure status, while a configuration file that cannot be read or parsed does not keep the others from taking effect. An interrupt (SIGINT) ends it cleanly.",
 ["configurations", "inputs", "fault_sequences"],
 "all valid and invalid configurations, receiver streams, outage points",
 "no test runs a whole daemon",
 ["src/dump1090/dump1090.c", "src/dump1090/position.c", "src/radarcape/network.c", "src/core/recv.c", "src/core/relay.c"],
 [("main, configuration checks", "src/dump1090/dump1090.c"), ("receive thread", "src/core/recv.c")],
 ["byte stream at a fake server, exit status"])

prop("C32", "Multi-byte fields are encoded and decoded portably",
 "Every integer and floating-point field helper encodes to, and decodes from, exactly the stated byte order at any alignment, and decoding an encoded value returns it bit for bit.",
 ["inputs"],
 "all values of all widths, both byte orders, all alignments",
 "helpers are exercised only through a few frames",
 ["src/util/endec.h", "src/util/port/endian.h"],
 [("ENDEC_* inline functions", "src/util/endec.h")],
 ["output bytes vs independent reference"])

prop("C33", "Received frames flow from receiver to buffer without loss or invention",
 "For every sequence of receiver connections, frames, status messages and disconnects, the frames placed in the buffer are exactly those the filter admits under the synchronisation state announced by the receiver since it connected, each with its verbatim bytes and in order. The receive thread reconnects after every loss and starts each connection unsynchronised.",
 ["histories", "fault_sequences"],
 "all frame and status sequences, filter settings and disconnect points",
 "test_recv uses a few fixed inputs",
 ["src/core/recv.c", "src/core/filter.c", "src/core/buffer.c"],
 [("RECV mainloop", "src/core/recv.c")],
 ["frames taken from the buffer vs injected sequence"])

prop("C34", "Periodic statistics report the true totals and rates",
 "The statistics report, whenever it is issued, shows the counters of connection, buffer, filter and receiver as they are at that moment, with sums, shares and rates computed from them and the elapsed time; reports are issued at the configured interval, and a statistics reset restarts all counters from zero without disturbing operation.",
 ["histories"],
 "all counter histories and report times",
 "no test examines the statistics",
 ["src/util/statistics.c", "src/util/component.c"],
 [("STAT mainloop and printing", "src/util/statistics.c"), ("COMP_resetAll", "src/util/component.c")],
 ["log output vs counters of the event log"])

prop("C35", "Inputs are configured before use, deliver every byte once and survive losses",
 "Whatever input is built in (serial line, network or simulated), connecting returns only once the input is open and configured - a serial line in raw mode at the specified speed, neither becoming the controlling terminal nor inherited by started programs; the receiver with the options of the configuration; the GPS unit at the final speed - and an input which cannot be opened is tried again after a pause. Every byte the device sends afterwards is delivered once, unchanged and in order, whatever the sizes of reads. A lost line or connection is reported and its descriptor is closed, so that the next connect opens a new one. A remote change of the squitter filter reaches a connected receiver and never anything else, also while the line is closed, opened or configured by another thread. The simulated receiver delivers completely initialized, well-formed frames with the current time.",
 ["inputs", "faults", "schedules"],
 "all contents, read sizes, faults of the terminal and socket calls, interleavings of reconfiguration and line loss",
 "the tests replace the input by a mock and never execute the code of the serial lines and network inputs",
 ["src/radarcape/uart.c", "src/radarcape/network.c", "src/radarcape/dummy.c", "src/radarcape/rc-parser.c", "src/trimble/trimble_input_uart.c", "src/trimble/trimble_input_network.c"],
 [("doConnect, RC_INPUT_read, RC_INPUT_write", "src/radarcape/uart.c"), ("configure, INPUT_reconfigure", "src/radarcape/rc-parser.c"), ("doConnect, TRIMBLE_INPUT_read", "src/trimble/trimble_input_uart.c"), ("RC_INPUT_connect, RC_INPUT_read", "src/radarcape/network.c"), ("RC_INPUT_read", "src/radarcape/dummy.c")],
 ["terminal and system calls, bytes on both ends of the line, switches of a model of the receiver"])

prop("C36", "The watchdog daemon gives up root privileges and runs only with its hardware",
 "The watchdog daemon opens its hardware and, if started as root, then gives up all privileges for good - user, group and supplementary groups become those of nobody (65534 where there is no such account) - before it starts to serve the watchdog; not started as root, it changes nothing. From then on it pulses the watchdog at once and every 30 seconds, forever. It terminates with a failure status and without touching hardware if the hardware cannot be reached or it was called with arguments.",
 ["inputs", "faults", "histories"],
 "all accounts data bases, credentials and hardware faults",
 "no test executes the daemon or the dropping of privileges",
 ["src/radarcape/wd-main.c", "src/util/util.c", "src/radarcape/watchdog.c"],
 [("main", "src/radarcape/wd-main.c"), ("UTIL_dropPrivileges", "src/util/util.c"), ("mainloop", "src/radarcape/watchdog.c")],
 ["model of the process credentials at every pause, register accesses"])

prop("C37", "The Radarcape daemon programs its FPGA before it reads and feeds its watchdog",
 "The stand-alone Radarcape daemon, started with any configuration and command line, uses the pins of the board it was told (--black or white) and no others; if the FPGA is to be configured, it clocks in exactly the configured file, again after a failed attempt, before it opens the serial line of the receiver, and ends with a failure without opening that line if the file is missing or no attempt succeeds; if it is not to be configured, the FPGA is not touched. Once started, it forwards frames and positions from its serial lines, survives losses of lines and server, and feeds the watchdog at least every 30 seconds until SIGINT ends it with success and the hardware released. An unknown option ends it without touching hardware or connecting; --save only writes the configuration, equally without touching hardware or connecting, and reports failures to write by its status, and a daemon started with the saved file behaves the same.",
 ["inputs", "faults", "schedules", "histories"],
 "all command lines, configurations and files, all faults of the FPGA in any attempt, all histories of lines and server",
 "no test executes the stand-alone daemon; its tests have no FPGA, watchdog or serial line",
 ["src/radarcape/main.c", "src/radarcape/fpga.c", "src/radarcape/gpio.c", "src/radarcape/watchdog.c", "src/radarcape/uart.c", "src/util/component.c", "src/util/util.c"],
 [("main", "src/radarcape/main.c"), ("construct, program, reset, transfer", "src/radarcape/fpga.c"), ("construct, mainloop", "src/radarcape/watchdog.c"), ("doConnect, RC_INPUT_read", "src/radarcape/uart.c"), ("COMP_fixup, COMP_startAll", "src/util/component.c")],
 ["register accesses of the daemon's process, in a model of controllers and FPGA", "opened lines", "byte stream at a fake server", "exit status"])

prop("C38", "Answers given when a feeder package is installed are what its daemon uses",
 "Whatever is preseeded or typed while a feeder package (opensky-feeder, -donated, -kit) is installed, upgraded or reconfigured, its scripts end with success: a question is asked again, with a note on the format, exactly while its answer is invalid (missing or impossible position, username beyond 40 characters, serial number or port which is not such a plain decimal number), no valid answer is changed, known answers are not asked for again by an upgrade, a changed username is pointed out, and without a front end nothing is asked and nothing waits. The daemon then started reports exactly the given position, username, device type and serial number and reads from the given host and port (localhost and 30005 by default); without a position it refuses to start. A serial number assigned by the server survives upgrades, also from versions which kept it in 10-serial.conf, and a given one overrides it. The daemon's account and group are created if missing, and the directory with the configuration is given to it unless the administrator has overridden that.",
 ["inputs", "histories"],
 "all preseeded values, sequences of right and wrong answers and question priorities; all histories of installation, upgrade and reconfiguration, with and without a serial number assigned in between",
 "no test executes the scripts of the packages or a daemon with the configuration they write",
 ["debian/opensky-feeder.config", "debian/opensky-feeder.postinst", "debian/opensky-feeder-donated.config", "debian/opensky-feeder-donated.postinst", "debian/opensky-feeder-kit.config", "debian/opensky-feeder-kit.postinst", "src/util/cfgfile.c", "src/dump1090/req-serial.c", "src/dump1090/position.c", "src/dump1090/devtype.c"],
 [("main loop, check, rational, integer", "debian/opensky-feeder.config"), ("configure", "debian/opensky-feeder.postinst"), ("configure", "debian/opensky-feeder-donated.postinst"), ("configure", "debian/opensky-feeder-kit.postinst"), ("SERIAL_getSerial", "src/dump1090/req-serial.c")],
 ["debconf protocol of the scripts", "files left in /var/lib/openskyd", "recorded account and owner commands", "byte stream of the daemon at a fake server", "addresses it connects to"])

prop("C39", "Start-up and package scripts leave daemon, service and data as ordered",
 "The Radarcape start script replaces itself by the daemon, started for the board it runs on (--black on a BeagleBone Black, no option on a White), on every kernel: before that, where overlays are loaded by hand (kernel 3), it loads exactly those of the three needed ones (BB-UART2, BB-UART5, the cape of the board) that are not loaded yet and touches no others; on any other or unknown board it starts nothing, loads nothing and fails. Installing a Radarcape package leaves its service enabled (opkg: and running) and known to the service manager, an upgrade leaves it as enabled and running as before, but in the new version, and a removal leaves it stopped and disabled, while other services are untouched. A removed feeder package keeps account, group, data and answers until it is purged, which removes these and nothing else; every script ends with success even if parts are missing already.",
 ["configurations", "histories"],
 "all boards, kernels, kernel logs and sets of overlays loaded before; all histories of installation, upgrade and removal with services enabled, disabled, running or stopped; all removal arguments with or without account, group and data",
 "no test executes any of these scripts",
 ["openskyd-arch/openskyd-start.sh", "openskyd-arch/openskyd.install", "openskyd-arch/openskyd-wd.install", "openskyd-opkg/CONTROL/postinst", "openskyd-opkg/CONTROL/preinst", "openskyd-opkg/CONTROL/prerm", "debian/opensky-feeder.postrm", "debian/opensky-feeder-donated.postrm", "debian/opensky-feeder-kit.postrm"],
 [("board and overlays", "openskyd-arch/openskyd-start.sh"), ("post_install, post_upgrade, pre_remove", "openskyd-arch/openskyd.install"), ("service", "openskyd-opkg/CONTROL/preinst"), ("purge", "debian/opensky-feeder.postrm")],
 ["arguments and process of the started daemon", "overlay list", "state of the modelled service manager", "accounts and files left"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
