"""Registry of the checks: which harness, from which repository sources, how many cases."""
import os, zlib

def S(name, variant, src, har, quick, thorough, **kw):
    d = dict(name=name, variant=variant, src=src, har=har, quick=quick, thorough=thorough)
    d.update(kw)
    return d

CHECKS = {}

CHECKS["C01"] = dict(
    rule="seeded grammar of 1-4 connections (frames of all types with 0-90% escape bytes, garbage, truncations, lone and doubled "
         "escapes), cut anywhere, read in 8 segmentations; non-trivial: at least one frame or resynchronisation; distinct by stream",
    need={"frames": 1000, "resyncs": 1000, "connections": 1000},
    stages=[S("rc", "asan", ["radarcape/rc-parser.c"], ["h_rcparser.cpp", "log_stub.c"], 60000, 2000000)])

CHECKS["C03"] = dict(
    rule="all 8191 escape patterns over strings of up to 12 bytes, then seeded strings up to 4000 bytes with 0-100% escapes, each "
         "into an exactly sized and into a canaried output; non-trivial: contains an escape (or enumerated pattern)",
    need={"escapes": 1000, "exhaustive_patterns": 8000},
    stages=[S("beast", "asan", ["core/beast.c"], ["h_codec.cpp"], 60000, 3000000, opts={"mode": 0})])

CHECKS["C32"] = dict(
    rule="seeded field contents (random, escape-rich, special exponents) of 2, 4 and 8 bytes at all 8 alignments against a byte-wise reference; "
         "distinct by content, width and alignment",
    need={"eval": 10000},
    stages=[S("endec", "asan", ["core/beast.c"], ["h_codec.cpp"], 20000, 500000, opts={"mode": 1})])

CHECKS["C04"] = dict(
    rule="seeded histories of 5-120 operations (frames of all types and formats, setting changes, sync changes, resets) from all initial settings; "
         "decision and all counters compared after each operation; non-trivial: at least one frame forwarded and one dropped",
    need={"accepted": 1000, "rejected": 1000},
    stages=[S("filter", "asan", ["core/filter.c", "util/cfgfile.c", "util/port/mmap-posix.c"], ["h_filter.cpp", "log_stub.c"], 40000, 1000000)])

CFGSRC = ["util/cfgfile.c", "util/port/mmap-posix.c"]
CFGWR = ["mmap", "munmap", "scandir", "fopen", "fprintf", "fputs", "fputc", "fwrite", "fclose"]
CHECKS["C15"] = dict(
    rule="seeded grammar- and mutation-generated files (all option types, valid/invalid/border values, odd spacing, CRLF, missing final newline, "
         "arbitrary bytes) and directories of files, read under both error policies into exactly sized variables; every variable, 'given' flag, return value "
         "and error report (with its line) compared with an independent reader; non-trivial: at least one known option assigned; distinct by content",
    need={"assignments": 10000, "invalid": 1000, "failed_reads": 100, "directories": 500, "directories_without_types": 100, "lines_reported": 10000},
    stages=[S("cfgread", "asan", CFGSRC, ["h_cfg.cpp", "log_stub.c"], 40000, 1500000, opts={"mode": 0}, wraps=CFGWR),
            S("cfgdir", "asan", CFGSRC, ["h_cfg.cpp", "log_stub.c"], 3000, 60000, opts={"mode": 1}, wraps=CFGWR)])
CHECKS["C16"] = dict(
    rule="seeded sets of values of every type (border doubles, full-length strings) saved as whole or by section and read back with the independent model; "
         "each save repeated with the file size limited to a random byte count (short write), or with single writes failing, plus full device and missing directory; distinct by saved content",
    need={"sets": 10000, "write_errors_injected": 1000, "transient_write_errors_reported": 1000},
    stages=[S("cfgwrite", "asan", CFGSRC, ["h_cfg.cpp", "log_stub.c"], 15000, 400000, opts={"mode": 2}, wraps=CFGWR)])

BUFSRC = ["core/buffer.c"] + CFGSRC
BUFWR = ["malloc", "free", "calloc", "sleep", "nanosleep"]
CHECKS["C05"] = dict(
    rule="seeded histories of 10-200 buffer operations over random pool configurations (down to the smallest) with allocation failures; after every operation "
         "frame identity, content and all twelve statistics are compared with a model; non-trivial: frames consumed and a discard, growth or flush happened; distinct by history",
    need={"discards": 1000, "pools_created": 1000, "alloc_failures": 50, "put_backs": 1000, "frames_consumed": 10000},
    stages=[S("bufseq", "asan", BUFSRC, ["h_buffer.cpp", "log_stub.c"], 30000, 1000000, opts={"mode": 0}, wraps=BUFWR)])
CHECKS["C07"] = dict(
    rule="as C05 with frequent collections, and with the automatic collector stepped by an interposed sleep; an allocation monitor checks after each collection "
         "exactly which pools were freed, and that everything is returned after draining and destruction; distinct by history",
    need={"collections": 1000, "pools_freed": 1000, "collector_runs": 300, "full_returns": 1000},
    stages=[S("bufgc", "asan", BUFSRC, ["h_buffer.cpp", "log_stub.c"], 20000, 600000, opts={"mode": 1}, wraps=BUFWR)])

CHECKS["C24"] = dict(
    rule="seeded histories of 20-150 operations over three lists of each kind (generic dispatch and the portable fallback), every list compared with the model "
         "sequence forwards, backwards, by length and by neighbours after each operation; non-trivial: lists were joined; distinct by history",
    need={"operations": 100000, "cuts": 1000, "joins": 1000},
    stages=[S("list", "asan", [], ["h_list.c"], 60000, 2000000),
            S("listfb", "asan", [], ["h_list.c"], 15000, 400000, defs=["-DNO_GENERIC"])])

CHECKS["C33"] = dict(
    rule="seeded histories of 1-6 receiver connections with 0-60 frames each (all types, status with and without clock), filter changes in between, small and large "
         "buffers, the loop stopped while waiting for a connection or inside a read; buffer content compared with the model; non-trivial: frames admitted and dropped",
    need={"frames_admitted": 10000, "connections": 5000, "discarded": 1000, "stopped_inside_receive": 500},
    stages=[S("recv", "asan", ["core/recv.c", "core/filter.c"] + BUFSRC, ["h_recv.cpp", "log_stub.c"], 12000, 400000),
            S("recvO2", "plain", ["core/recv.c", "core/filter.c"] + BUFSRC, ["h_recv.cpp", "log_stub.c"], 8000, 200000)])

MTWR = ["pthread_mutex_lock", "pthread_mutex_unlock", "pthread_cond_broadcast", "pthread_cond_signal", "sleep", "clock_gettime"]
CHECKS["C06"] = dict(
    rule="one producer, one consumer, optional flusher, manual and automatic collector and statistics reader on real threads, delays injected at every lock operation, "
         "pool sizes from 2 frames to more than needed, waits from 0 ms to unbounded, consumers stopped and cancelled; a frame ledger decides loss, order and content, ThreadSanitizer "
         "decides data races; distinct by the observed global order of lock events (interleaving)",
    need={"frames_consumed": 50000, "put_backs": 1000, "timeouts": 100, "flushes": 200, "sync_events": 100000, "collector_rounds": 300, "pools_created": 1000, "cancelled_waits": 50},
    stages=[S("bufmt", "asan", BUFSRC, ["h_bufmt.cpp", "log_stub.c"], 1600, 60000, wraps=MTWR),
            S("bufts", "tsan", BUFSRC, ["h_bufmt.cpp", "log_stub.c"], 800, 30000, wraps=MTWR),
            S("bufO2", "plain", BUFSRC, ["h_bufmt.cpp", "log_stub.c"], 1200, 40000, wraps=MTWR)])

TRI = ["trimble/trimble_parser.c", "trimble/trimble_recv.c", "core/gps.c", "core/beast.c"]
CHECKS["C19"] = dict(
    rule="seeded streams of packets of 1 to twice the buffer size (0-40% escapes), truncations and garbage over 1-3 connections, read in 4 segmentations into exactly sized buffers; "
         "each returned packet compared with a reference byte machine; non-trivial: a packet or a resynchronisation; distinct by stream",
    need={"packets": 10000, "overlong": 1000, "resyncs": 1000, "connections": 1000},
    stages=[S("tsip", "asan", TRI, ["h_trimble.cpp", "log_stub.c"], 30000, 1000000, opts={"mode": 0})])
CHECKS["C20"] = dict(
    rule="seeded histories of status packets (good, each single condition violated, random fields, wrong id, sub-id and length), other packets and garbage over 1-4 connections with a leftover fix; "
         "after everything read so far the published position is queried through GPS_sendPosition and compared; non-trivial: some published and some refused; distinct by stream",
    need={"published": 10000, "refused": 10000, "observations": 100000},
    stages=[S("gpspos", "asan", TRI, ["h_trimble.cpp", "log_stub.c"], 20000, 600000, opts={"mode": 1})])

NETWR = ["send", "recv", "shutdown", "close", "sleep", "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_cond_broadcast"]
NETSRC = ["core/network.c"] + CFGSRC
CHECKS["C08"] = dict(
    rule="1-4 concurrent senders and a receiver on real threads over socket pairs with partial writes, slow, failing and vanishing servers; every accepted byte is attributed to its NET_send call and each "
         "server stream parsed back into messages; distinct by observed order of lock and socket events",
    need={"messages_delivered": 20000, "partial_sends": 5000, "messages_failed": 500, "messages_cut": 20, "kills": 500},
    stages=[S("netmsg", "asan", NETSRC, ["h_net.cpp", "log_stub.c"], 8000, 300000, opts={"mode": 0}, wraps=NETWR + ["time"]),
            S("netmsgnocp", "asan", NETSRC, ["h_net.cpp", "log_stub.c"], 2500, 60000, opts={"mode": 0}, wraps=NETWR + ["time", "pthread_cond_timedwait", "select"], defs=["-DVF_NO_CANCEL_POINTS", "-DVF_SELECT", "-DVF_SALT=79"])])
CHECKS["C09"] = dict(
    rule="as C08 with up to 9 connection losses per case seen first by either side, refused attempts, forced disconnects, waiters, early stops and restarts; monitors on descriptors, attempts, pauses, wakeups, online time and liveness queries; distinct by interleaving",
    need={"recoveries": 1000, "refused": 500, "kills": 3000, "injected_errors": 200, "forced_disconnects": 50, "rounds": 2000, "online_totals": 500, "online_times": 1000, "stale_checks": 20},
    stages=[S("netrec", "asan", NETSRC, ["h_net.cpp", "log_stub.c"], 8000, 300000, opts={"mode": 1}, wraps=NETWR + ["time"]),
            S("netts", "tsan", NETSRC, ["h_net.cpp", "log_stub.c"], 3000, 80000, opts={"mode": 1, "tsan": 1}, wraps=NETWR + ["time"]),
            S("netO2", "plain", NETSRC, ["h_net.cpp", "log_stub.c"], 4000, 120000, opts={"mode": 1}, wraps=NETWR + ["time"]),
            S("netnocp", "asan", NETSRC, ["h_net.cpp", "log_stub.c"], 3000, 80000, opts={"mode": 1}, wraps=NETWR + ["time", "pthread_cond_timedwait", "select"], defs=["-DVF_NO_CANCEL_POINTS", "-DVF_SELECT", "-DVF_SALT=77"])])

LOGSRC = ["core/login.c", "core/gps.c", "core/beast.c"]
CHECKS["C11"] = dict(
    rule="seeded logins: device types, serials, positions, user names of 0-60 bytes (escape-rich), every serial result, sending failing at every message, three version numbers; messages compared byte for byte "
         "with an independent encoding; distinct by the complete login",
    need={"complete": 10000, "incomplete": 5000, "gave_up": 500, "late_positions": 1000},
    stages=[S("login", "asan", LOGSRC, ["h_login.cpp", "log_stub.c"], 20000, 600000, opts={"mode": 0}),
            S("loginver", "asan", LOGSRC, ["h_login.cpp", "log_stub.c"], 4000, 100000, opts={"mode": 0}, defs=['-DVF_VERSION="26.6682.1718"']),
            S("loginmsan", "msan", LOGSRC, ["h_login.cpp", "log_stub.c"], 4000, 100000, opts={"mode": 0}),
            S("loginndebug", "ndebug", LOGSRC, ["h_login.cpp", "log_stub.c"], 8000, 100000, opts={"mode": 0}, defs=['-DVF_VERSION="0.4294967295.26"'])])
CHECKS["C12"] = dict(
    rule="seeded histories of 5-80 position, fix, reset and request operations with failing sends compared message by message with a model; concurrent updates and requests with delays where every sent "
         "position must be one that was set, no older than the last one set before; distinct by history",
    need={"sent": 20000, "deferred": 10000, "answered": 5000, "failed_sends": 2000, "concurrent_messages": 10000, "updates_during_login": 1000},
    stages=[S("gpsseq", "asan", LOGSRC, ["h_login.cpp", "log_stub.c"], 20000, 600000, opts={"mode": 1}),
            S("gpsmt", "asan", LOGSRC, ["h_login.cpp", "log_stub.c"], 600, 20000, opts={"mode": 2}),
            S("gpsts", "tsan", LOGSRC, ["h_login.cpp", "log_stub.c"], 300, 10000, opts={"mode": 2}),
            S("gpsmsan", "msan", LOGSRC, ["h_login.cpp", "log_stub.c"], 4000, 100000, opts={"mode": 1}),
            S("gpslogin", "asan", LOGSRC, ["h_login.cpp", "log_stub.c"], 8000, 200000, opts={"mode": 0})])

CHECKS["C13"] = dict(
    rule="seeded streams of server packets over 1-4 connections (registered, unregistered, unknown types; right, wrong, impossible lengths; garbage; truncations) in 6 segmentations, random registrations and payload "
         "lengths; handler calls compared with a reference reader after each read; and real packets through the real connection manager with losses and a concurrent sender; distinct by stream or interleaving",
    need={"handled": 20000, "skipped": 10000, "buffer_resets": 2000, "connections": 10000, "net_packets": 20000, "net_connections": 5000},
    stages=[S("tbframe", "asan", ["core/tb.c"], ["h_tb.cpp", "log_stub.c"], 40000, 1500000, opts={"mode": 0}),
            S("tbnet", "asan", ["core/tb.c"] + NETSRC, ["h_tbnet.cpp", "log_stub.c"], 4000, 150000, wraps=NETWR)])

TBSRC = ["core/tb.c", "core/filter.c", "core/buffer.c", "core/network.c", "core/recv.c", "core/relay.c", "core/gps.c", "core/login.c", "core/beast.c", "util/component.c", "util/statistics.c",
         "util/util.c", "util/serial_eth.c", "util/proc.c", "util/net_common-posix.c", "trimble/trimble_recv.c", "trimble/trimble_parser.c", "trimble/trimble_input_uart.c",
         "radarcape/rc-parser.c", "radarcape/watchdog.c", "radarcape/fpga.c", "radarcape/gpio.c", "radarcape/tb-misc.c", "radarcape/tb-rshell.c"] + CFGSRC
TBWR = ["fork", "execve", "execv", "execvp", "daemon", "fopen", "NET_waitConnected", "NET_receive", "COMP_initAll", "COMP_startAll", "COMP_stopAll", "COMP_destructAll", "UTIL_waitSigInt", "SERIAL_ETH_getSerial", "INPUT_reconfigure"]
def TBC(name, defs, quick, thorough, inp="UART", **kw):
    return S(name, "asan", TBSRC + [("radarcape/main.c", ["-Dmain=rc_main"])], ["h_tb.cpp", "rcin_stub.c", "log_stub.c"], quick, thorough,
             defs=["-DTB_CMDS", "-DINPUT_RADARCAPE_" + inp, '-DSYSCONFDIR="/verif-none"', '-DFWDIR="/verif-none"'] + defs, wraps=TBWR, **kw)
SYSD, PACM = '-DWITH_SYSTEMD="/bin"', "-DWITH_PACMAN"
CHECKS["C14"] = dict(
    rule="commands registered by the real main() in five build configurations, driven by seeded packet streams (all types and lengths, garbage) with failing forks, programs and daemonisation; every program start is "
         "recorded in place of execve and the filter is probed after each packet; the same commands sent to each kind of whole daemon over its connection, where what a program would inherit is recorded, too; distinct by stream",
    need={"programs_started": 3000, "filter_commands": 3000, "skipped": 10000, "commands_refused": 150},
    stages=[TBC("cmdall", ["-DSTANDALONE", SYSD, PACM], 3000, 40000, opts={"mode": 2}),
            TBC("cmdblack", ["-DSTANDALONE", SYSD], 2000, 20000, opts={"mode": 2, "black": 1}),
            TBC("cmdpac", ["-DSTANDALONE", PACM], 2000, 20000, opts={"mode": 2}),
            TBC("cmdmin", ["-DSTANDALONE"], 2000, 20000, opts={"mode": 2}),
            TBC("cmdnet", [SYSD, PACM], 2000, 20000, opts={"mode": 2}, inp="NETWORK")])

CHECKS["C28"] = dict(
    rule="real programs (the harness under odd names) started through every function: all exit statuses, deaths by signal, missing and unusable programs, failing forks, argument lists around the size of the log line, "
         "several threads at once, signals interrupting waits and other threads logging; the program reports what it was started with; distinct by case",
    need={"programs": 1000, "succeeded": 200, "failed": 300, "background": 150, "failed_forks": 100, "with_signals": 200, "with_busy_log": 400},
    stages=[S("proc", "asan", ["util/proc.c", "util/log_stdio.c"], ["h_proc.cpp"], 1600, 30000, wraps=["fork", "daemon"], case_timeout=25)])

CHECKS["C25"] = dict(
    rule="1-5 threads logging tagged messages of 10 bytes to 6 kB through all five functions, levels and error numbers, threads cancelled while logging, fatal records in a process of their own with other threads still logging; "
         "captured output parsed back into records, for all three back ends; distinct by case",
    need={"records": 50000, "fatal_records": 300, "cancelled_loggers": 300, "concurrent": 500},
    stages=[S("logstdio", "asan", ["util/log_stdio.c"], ["h_log.cpp"], 1500, 40000, case_timeout=30),
            S("logrc", "asan", [("radarcape/lib/log_lib.cc", ["-I" + "@SRC@/radarcape/lib"])], [("h_log.cpp", ["-DLOGLIB", "-I" + "@SRC@/radarcape/lib"])], 800, 20000, case_timeout=30),
            S("loggp", "asan", [("gplib/log_lib.cc", ["-I" + "@SRC@/gplib"])], [("h_log.cpp", ["-DLOGLIB", "-I" + "@SRC@/gplib"])], 800, 20000, case_timeout=30),
            S("logts", "tsan", ["util/log_stdio.c"], ["h_log.cpp"], 300, 6000, case_timeout=30)])

HWWR = ["open", "open64", "close", "mmap", "munmap", "usleep", "sleep", "nanosleep", "clock_nanosleep"]
HWSRC = ["radarcape/gpio.c", "radarcape/watchdog.c", "radarcape/fpga.c"] + CFGSRC
def HW(name, mode, quick, thorough):
    return S(name, "asan", HWSRC, ["h_gpio.cpp", "log_stub.c"], quick, thorough, opts={"mode": mode}, wraps=HWWR, defs=['-DFWDIR="fw"'])
CHECKS["C26"] = dict(
    rule="seeded bitstream files (0 to 4 kB, both boards) and file names (relative, absolute, missing, up to the maximal length) against a register level model of the device with late, failing and unresponsive handshakes per attempt; "
         "every register access is trapped; distinct by file, name and faults",
    need={"programmed": 500, "failed_programming": 300, "retries": 500, "bits": 50000, "no_file": 100},
    stages=[HW("fpga", 2, 4000, 60000)])
CHECKS["C27"] = dict(
    rule="seeded operations on all 128 pins with random directions, outputs and inputs, every register access trapped and applied to a hardware model, unreachable hardware; watchdog loop on virtual time for up to 43 intervals; distinct by history",
    need={"pin_operations": 30000, "register_accesses": 50000, "watchdog_pulses": 3000, "failed_constructions": 30},
    stages=[HW("pins", 0, 3000, 100000), HW("wd", 1, 600, 10000)])

CHECKS["C17"] = dict(
    rule="random acyclic dependency graphs of 1-12 instrumented components (every subset of callbacks, threads, flags, registration orders), cycles and dependencies on disabled ones, failures at every construction, start and thread creation, "
         "stops refused a number of times or until another component has stopped, up to 12 init/start/stop cycles; the callback trace is compared with the specified order; distinct by graph and registration",
    need={"starts": 3000, "failed_inits": 300, "failed_starts": 500, "deferred_stops": 2000, "refused_setups": 200, "unstoppable": 200},
    stages=[S("comp", "asan", ["util/component.c"] + CFGSRC, ["h_component.cpp", "log_stub.c"], 4000, 120000, wraps=["pthread_create", "pthread_join", "pthread_timedjoin_np", "pthread_cancel"])])

NCWR = ["malloc", "calloc", "free", "getaddrinfo", "freeaddrinfo", "socket", "connect", "close", "rand"]
CHECKS["C29"] = dict(
    rule="seeded address lists of 0-7 entries (IPv4, IPv6, unknown families, duplicates) from an interposed resolver, refused addresses, failing sockets, resolver errors, extreme random numbers, and the thread cancelled while resolving or in any connect; "
         "ledger of descriptors, address lists and memory; order sampled; distinct by addresses and observed order",
    need={"connected": 3000, "all_failed": 1500, "cancelled": 500, "fallbacks": 2000, "order_probes": 50},
    stages=[S("netc", "asan", ["util/net_common-posix.c", "util/util.c"], ["h_netc.cpp", "log_stub.c"], 12000, 400000, wraps=NCWR),
            S("netcO2", "plain", ["util/net_common-posix.c", "util/util.c"], ["h_netc.cpp", "log_stub.c"], 8000, 200000, wraps=NCWR)])

CHECKS["C34"] = dict(
    rule="reports of the real statistics loop on virtual time, every number of every report compared: stage stat with arbitrary counter values (up to 2^60, resets in between, reports without time in between), stage statreal with the counters of the real filter, buffer and connection "
         "manager under random frames, traffic, losses, refused attempts and resets; distinct by counter history",
    need={"reports": 10000, "numbers_compared": 300000, "resets": 1000, "losses": 300, "net_bytes": 300000},
    stages=[S("stat", "asan", ["util/statistics.c", "util/cfgfile.c", "util/port/mmap-posix.c"], ["h_stat.cpp", "log_stub.c"], 4000, 150000, wraps=["time", "sleep"]),
            S("statreal", "asan", ["util/statistics.c", "core/filter.c", "core/network.c", "core/buffer.c", "util/cfgfile.c", "util/port/mmap-posix.c"], [("h_stat.cpp", ["-DREAL"]), "log_stub.c"], 1500, 50000, wraps=["time", "sleep"])])

FEEDSRC = ["core/relay.c", "core/login.c", "core/gps.c", "core/beast.c", "core/filter.c", "core/recv.c", "core/tb.c", "core/buffer.c", "core/network.c", "util/component.c", "util/statistics.c"] + CFGSRC
FEEDWR = NETWR + ["pthread_create", "pthread_timedjoin_np", "pthread_join", "pthread_cancel"]
def FEED(name, variant, quick, thorough, **kw):
    return S(name, variant, FEEDSRC, ["h_feed.cpp", "log_stub.c"], quick, thorough,
             wraps=FEEDWR + (["select", "pthread_cond_timedwait"] if name.endswith("nocp") else []) + (["NET_getStatistics", "FILTER_getStatistics", "FILTER_setSynchronizedFilter", "FILTER_setModeSExtSquitter", "FILTER_filter"] if variant == "tsan" else []), **kw)
CHECKS["C10"] = dict(
    rule="the whole feeder core on real threads between a scripted receiver (frames carrying a running number, pauses, losses of the receiver) and scripted servers (refusing, slow, stalling, accepting partially, cut after "
         "any byte), history on and off, pools from 2 frames to plenty, remote filter changes, failing serial numbers, late positions; the byte stream of each connection is parsed online against the commit log; "
         "distinct by interleaving of lock and socket events",
    need={"frames_delivered": 40000, "discarded": 3000, "connections": 2000, "losses": 1000, "keep_alives": 300, "logins": 1500, "partial_sends": 5000, "serial_failures": 20, "late_positions": 80},
    stages=[FEED("feed", "asan", 1600, 80000, opts={"mode": 0}), FEED("feedO2", "plain", 800, 40000, opts={"mode": 0})])
CHECKS["C18"] = dict(
    rule="as C10 with 1-6 rounds of start and stop per case, the stop at a random moment (connecting, hanging connect, login, sending to a stalled server, receiving, idle), ASan and production optimisation; after each stop the threads, "
         "descriptors, sockets and locks are counted, after each start the next connection is judged like a fresh one; distinct by interleaving",
    need={"stops": 4000, "reinitialisations": 500, "connections": 6000, "logins": 4000, "deferred_stops": 5, "frames_delivered": 50000},
    stages=[FEED("feedstop", "asan", 1200, 60000, opts={"mode": 1}), FEED("feedstopO2", "plain", 1600, 60000, opts={"mode": 1}), FEED("feedstopnocp", "asan", 500, 20000, opts={"mode": 1}, defs=["-DVF_NO_CANCEL_POINTS", "-DVF_SELECT", "-DVF_SALT=78"])])
CHECKS["C30"] = dict(
    rule="the workloads of C10 and C18 with ThreadSanitizer on all feeder code (race, lock order, lock misuse and thread leak reports), delays injected at lock and socket operations; settings and counters read without a lock by design "
         "are excluded; distinct by interleaving",
    need={"frames_delivered": 20000, "stops": 1500, "sync_events": 500000, "reconfigurations": 2000, "late_positions": 50, "losses": 500},
    stages=[FEED("feedts", "tsan", 600, 20000, opts={"mode": 0, "tsan": 1}), FEED("feedstopts", "tsan", 400, 20000, opts={"mode": 1, "tsan": 1})])

LIBCORE = ["core/relay.c", "core/login.c", "core/gps.c", "core/beast.c", "core/filter.c", "core/tb.c", "core/buffer.c", "util/component.c"] + CFGSRC
LIBWR = ["pthread_create", "pthread_timedjoin_np", "pthread_cancel"]
LIBIGN = ["FILTER_reset", "FILTER_setSynchronized", "FILTER_setSynchronizedFilter", "FILTER_setModeSExtSquitter", "FILTER_filter"]
def LIB(name, variant, gp, stub, quick, thorough, **kw):
    inc = "-I@SRC@/" + ("gplib" if gp else "radarcape/lib")
    return S(name, variant, [("gplib/opensky.cc" if gp else "radarcape/lib/opensky.cc", [inc])] + LIBCORE + ([] if stub else ["core/network.c"]),
             [("h_lib.cpp", [inc] + (["-DGPLIB"] if gp else []) + (["-DSTUBNET"] if stub else [])), "log_stub.c"], quick, thorough,
             wraps=LIBWR + ([] if stub else NETWR) + (LIBIGN if variant == "tsan" else []), **kw)
CHECKS["C22"] = dict(
    rule='histories of library calls (configure, enable, disable, frames of all types and sizes, GPS and time status, positions) compared frame by frame with a model; with the real network layer against a fake server, and with ThreadSanitizer with callers in several threads; distinct by history',
    need={'accepted': 25000, 'rejected': 100000, 'enables': 5000, 'disables': 5000, 'positions': 25000, 'positions_sent': 5000, 'status_changes': 15000, 'frames_delivered': 40000, 'frames_required': 15000, 'connections': 3000, 'logins': 2500, 'losses': 2000, 'late_positions': 60, 'sync_events': 500000},
    stages=[LIB("librc", "asan", False, True, 6000, 200000), LIB("librcnet", "asan", False, False, 600, 30000), LIB("librcts", "tsan", False, False, 250, 8000, opts={"tsan": 1})])
CHECKS["C23"] = dict(
    rule='histories of library calls (configure, enable, disable, frames of all lengths, types and time formats, positions) compared frame by frame with a model, also in the optimised build without assertions and with the real network layer against a fake server; distinct by history',
    need={'accepted': 30000, 'rejected': 130000, 'positions_sent': 10000, 'frames_required': 10000, 'frames_delivered': 30000, 'connections': 2500, 'losses': 1500, 'late_positions': 40},
    stages=[LIB("libgp", "asan", True, True, 6000, 200000), LIB("libgpnet", "asan", True, False, 600, 30000), LIB("libgpO2", "ndebug", True, True, 2000, 50000)])

CHECKS["C18"]["stages"] += [LIB("rclibstop", "asan", False, False, 160, 8000), LIB("gplibstop", "asan", True, False, 160, 8000)]

SETHWR = ["socket", "ioctl", "close", "fopen", "fclose"]
CHECKS["C21"] = dict(
    rule='histories of several process lives with configured, derived and server-assigned serial numbers: interface lists, hardware addresses, failing socket and ioctl calls and missing or damaged sysfs files; server answers early, late, twice or never, connection losses, unwritable storage and restarts; the number returned, the file stored and the requests made are compared with a model; distinct by history',
    need={'obtained': 50000, 'not_obtained': 30000, 'by_socket': 5000, 'by_sysfs': 3000, 'configured': 2000, 'answers': 3000, 'late_answers': 2000, 'losses': 200, 'timeouts': 80, 'requests': 1200, 'assigned': 1000, 'unwritable': 300, 'network_failures': 500},
    stages=[S("serialeth", "asan", [("util/serial_eth.c", ["-DLOCAL_FILES"])] + CFGSRC, [("h_serial.cpp", ["-DLOCAL_FILES"]), "log_stub.c"], 20000, 500000, wraps=SETHWR),
            S("serialdef", "asan", ["util/serial_eth.c"] + CFGSRC, ["h_serial.cpp", "log_stub.c"], 6000, 100000, wraps=SETHWR),
            S("serialreq", "asan", [("dump1090/req-serial.c", ["-DLOCAL_FILES"])] + CFGSRC, [("h_serial.cpp", ["-DREQ"]), "log_stub.c"], 3000, 80000, wraps=["clock_gettime", "pthread_cond_timedwait"])])

DMNCORE = ["core/relay.c", "core/login.c", "core/gps.c", "core/beast.c", "core/filter.c", "core/recv.c", "core/tb.c", "core/buffer.c", "core/network.c", "util/component.c", "util/statistics.c", "util/util.c", "util/log_stdio.c", "util/proc.c",
           "util/net_common-posix.c", "radarcape/rc-parser.c", "radarcape/network.c"] + CFGSRC
PKGD = ["-DPKG", '-DREPODIR="%s"' % os.environ.get("VERIF_REPO", "/repo")]
def DMN(name, variant, kind, quick, thorough, **kw):
    d = ['-DSYSCONFDIR="etc"', '-DLOCALSTATEDIR="var"'] + {"feeder": [], "donated": ["-DDUMP1090_DONATED"], "kit": ["-DDUMP1090_KIT"], "pkg": PKGD + ["-DPKG_TYPE"], "pkgdonated": PKGD + ["-DDUMP1090_DONATED"], "pkgkit": PKGD + ["-DDUMP1090_KIT"], "rc": ["-DRC", "-DINPUT_RADARCAPE_NETWORK"], "std": ["-DRC", "-DSTD", "-DSTANDALONE", "-DINPUT_RADARCAPE_UART", '-DFWDIR="fw"', '-DWITH_SYSTEMD="nobin"', '-DWITH_PACMAN="nobin"']}[kind]
    if name not in ("dmnfeeder", "std"): d.append("-DVF_SALT=%d" % (zlib.crc32(name.encode()) % 100000 + 1))
    if name.endswith("nocp"): d.append("-DVF_NO_CANCEL_POINTS")
    if name.startswith("cmddmn"): d.append("-DCMD")
    core = [x for x in DMNCORE if x != "radarcape/network.c"] if kind == "std" else DMNCORE
    src = ([("radarcape/main.c", ["-Dmain=daemon_main"]), "radarcape/uart.c", "radarcape/gpio.c", "radarcape/fpga.c", "radarcape/watchdog.c", "radarcape/tb-misc.c", "radarcape/tb-rshell.c", "trimble/trimble_recv.c", "trimble/trimble_parser.c", "trimble/trimble_input_uart.c", "util/serial_eth.c"] if kind == "std" else
           [("radarcape/main.c", ["-Dmain=daemon_main"]), "trimble/trimble_recv.c", "trimble/trimble_parser.c", "trimble/trimble_input_network.c", "util/serial_eth.c"] if kind == "rc" else
           [("dump1090/dump1090.c", ["-Dmain=daemon_main"]), "dump1090/req-serial.c", "dump1090/position.c"] + (["dump1090/devtype.c"] if kind in ("feeder", "pkg") else ["radarcape/tb-rshell.c"] if kind in ("donated", "pkgdonated") else []))
    return S(name, variant, core + src, ["h_daemon.cpp"], quick, thorough, defs=d, wraps=["sigwait", "sleep", "connect", "execve", "fopen"] + (["pthread_cond_timedwait"] if name.endswith("nocp") else []) + (["SERIAL_ETH_getSerial"] if kind in ("rc", "std") else []) + (["open", "open64", "close", "mmap", "munmap", "usleep", "nanosleep", "clock_nanosleep", "tcgetattr", "tcsetattr", "tcflush", "tcdrain"] if kind == "std" else []), case_timeout=100, **kw)
CHECKS["C31"] = dict(
    rule='the whole daemon program (feeder, donated, kit and radarcape configuration) in a process of its own on loopback TCP against a scripted receiver, server and GPS unit: random valid and invalid configurations in the files the daemon reads, outages on all sides, stalls, remote filter commands, serial number assignment, stop and restart; the byte stream at the server is parsed and compared with what the receiver sent; distinct by script',
    need={'frames_delivered': 5000, 'calm_phases': 250, 'early_stops': 8, 'filter_commands': 25, 'history_outages': 25, 'keep_alives': 25, 'logins': 300, 'receiver_losses': 50, 'server_losses': 70, 'gps_losses': 5, 'refused_configurations': 12, 'serial_requests': 40, 'stops': 200},
    stages=[DMN("dmnfeeder", "asan", "feeder", 160, 1000), DMN("dmndonated", "asan", "donated", 64, 300), DMN("dmnkit", "asan", "kit", 64, 300), DMN("dmnrc", "asan", "rc", 128, 700), DMN("dmnO2", "ndebug", "feeder", 128, 700), DMN("dmnnocp", "asan", "feeder", 64, 300), DMN("dmnrcnocp", "asan", "rc", 32, 200)])

CHECKS["C37"] = dict(
    rule='the stand-alone Radarcape daemon as a whole program in a process of its own: register accesses trapped one by one and given to a model of FPGA, GPIO controllers and watchdog, serial lines as sockets, loopback server; random boards, FPGA files, configurations, command lines, faults of the FPGA (each attempt), outages of lines and server, stop and restart; distinct by script',
    need={'frames_delivered': 2500, 'watchdog_pulses': 400, 'bits': 40000, 'register_accesses': 300000, 'logins': 80, 'stops': 60, 'failed_programming': 3, 'saved_configurations': 8, 'refused_configurations': 8, 'receiver_losses': 8, 'server_losses': 16},
    stages=[DMN("std", "asan", "std", 128, 700), DMN("stdO2", "ndebug", "std", 96, 700)])

CHECKS["C38"] = dict(
    rule='the configuration and post-installation scripts of the three feeder packages run for real, as an unprivileged user in a name space in which /var/lib is a scratch directory, against a debconf front end and a user played by the harness (preseeded, interactive with right and wrong answers, noninteractive; installation, upgrade, reconfiguration), and the daemon of the package started with the files they leave, against a scripted server and receiver; distinct by script',
    need={'installations': 160, 'frames_delivered': 4000, 'interactive': 180, 'noninteractive': 40, 'incomplete': 5, 'wrong_answers': 350, 'questions': 1000, 'reconfigurations': 40, 'upgrades': 40, 'renamed_serials': 10, 'second_runs': 12, 'username_notes': 8, 'serial_requests': 40, 'positions': 180},
    stages=[DMN("pkg", "asan", "pkg", 96, 600), DMN("pkgdonated", "asan", "pkgdonated", 48, 300), DMN("pkgkit", "asan", "pkgkit", 48, 300)])

HOSTSRC = {"rx": ["radarcape/rc-parser.c", "core/recv.c", "core/filter.c"] + BUFSRC,
           "gps": ["trimble/trimble_parser.c", "trimble/trimble_recv.c", "core/gps.c", "core/beast.c"],
           "tb": ["core/tb.c", "core/filter.c", "radarcape/tb-rshell.c", ("dump1090/req-serial.c", ['-DLOCALSTATEDIR="."'])] + CFGSRC}
HOSTDEF = {"rx": "-DRX", "gps": "-DGPSU", "tb": "-DTBK"}
def HOST(kind, variant, quick, thorough):
    return S("hostile" + kind + ("" if variant == "asan" else variant), variant, HOSTSRC[kind], [("h_hostile.cpp", [HOSTDEF[kind]]), "log_stub.c"], quick, thorough,
             wraps=["clock_gettime", "pthread_cond_timedwait"] if kind == "tbx" else [])
_tb = bytes([0, 0]) + bytes([0, 4, 0, 6, 3, 1]) + bytes([0, 0, 0, 10, 127, 0, 0, 1, 0, 80]) + bytes([0, 5, 0, 8, 1, 2, 3, 4])
_gp = bytes([0, 1, 0x10, 0x8f, 0xac]) + bytes([7] + [0] * 66) + bytes([0x10, 3]) + bytes([0x10, 0x8f, 0xab] + [9] * 16 + [0x10, 3])
_rx = bytes([0, 1, 0x1a, 0x33, 0, 0, 0x1a, 0x1a, 0, 0, 9, 7, 0x8d] + [5] * 13 + [0x1a, 0x32, 0, 0, 0, 0, 0, 1, 9] + [0x1a] * 14 + [0x1a, 0x31] + [1] * 9 + [0x1a, 0x34] + [1] * 21)
CHECKS["C02"] = dict(
    rule="hostile streams of receiver, GPS unit and server (grammar of valid, boundary-length and broken messages, escape runs and noise, then mutated; all segmentations) through the real reading loops under ASan, UBSan and "
         "MemorySanitizer, and streams generated by libFuzzer for coverage; every stream is followed by well-formed data which must still be handled; distinct by stream (fuzz stages: inputs reaching new coverage)",
    need={"bytes": 20000000, "connections": 60000, "frames": 40000, "programs": 1000, "serials": 500, "fuzz_execs": 300000, "fuzz_cov:fuzzrx": 150, "fuzz_cov:fuzzgps": 100, "fuzz_cov:fuzztb": 80},
    stages=[S("fuzz" + k, "fuzz", HOSTSRC[k], [("h_hostile.cpp", [HOSTDEF[k]]), "log_stub.c"], 160000, 40000000, rt=[], fuzz=[x]) for k, x in (("rx", _rx), ("gps", _gp), ("tb", _tb))] +
           [HOST(k, v, q * (2 if v == "asan" else 1), 100 * q) for k, q in (("rx", 5000), ("gps", 5000), ("tb", 5000)) for v in ("asan", "msan")])

INWR = ["open", "open64", "close", "read", "write", "tcgetattr", "tcsetattr", "tcflush", "tcdrain", "sleep", "pthread_mutex_lock"]
def INP(name, variant, kind, quick, thorough, **kw):
    src = {"RCU": [("radarcape/rc-parser.c", ["-DINPUT_RADARCAPE_UART"]), "radarcape/uart.c", "core/filter.c"], "DUM": [("radarcape/rc-parser.c", ["-DINPUT_RADARCAPE_DUMMY"]), "radarcape/dummy.c", "core/beast.c", "core/filter.c"], "RCN": [("radarcape/rc-parser.c", ["-DINPUT_RADARCAPE_NETWORK"]), "radarcape/network.c", "core/filter.c"],
           "GPU": ["trimble/trimble_parser.c", "trimble/trimble_input_uart.c"], "GPN": ["trimble/trimble_parser.c", "trimble/trimble_input_network.c"]}[kind]
    return S(name, variant, src + CFGSRC, [("h_input.cpp", ["-D" + kind]), "log_stub.c"], quick, thorough, wraps=INWR if kind[2] == "U" and kind != "DUM" else ["random", "usleep", "clock_gettime"] if kind == "DUM" else ["NETC_connect", "close", "recv", "sleep"] + (["select", "pthread_cond_timedwait"] if name.endswith("nocp") else []), **kw)
CHECKS["C35"] = dict(
    rule="real inputs on pseudo terminals, socket pairs in their place and simulated receivers: histories of connecting (no line, no terminal, failing terminal calls and writes), traffic of 0 to 12 bursts up to 1500 bytes with random read sizes, "
         "empty and interrupted reads, errors, hang-ups, cancellation, reconfiguration; reconfiguration by a second thread while lines are lost and reopened under injected delays; distinct by history or schedule",
    need={"connections": 10000, "bytes": 5000000, "failed_attempts": 4000, "failed_writes": 1000, "hangups": 3000, "errors": 2000, "cancelled": 1500, "reconfigurations": 4000, "concurrent_reconfigurations": 3000, "reconnects": 3000, "simulated_frames": 200000, "waits": 1500},
    stages=[INP("uartrc", "asan", "RCU", 2000, 60000, opts={"mode": 0}), INP("uartgps", "asan", "GPU", 2000, 60000, opts={"mode": 0}), INP("netrc", "asan", "RCN", 1500, 40000), INP("netgps", "asan", "GPN", 1500, 40000),
            INP("netrcnocp", "asan", "RCN", 600, 10000, defs=["-DVF_NO_CANCEL_POINTS", "-DVF_SELECT_READY", "-DVF_SALT=80"]), INP("netgpsnocp", "asan", "GPN", 600, 10000, defs=["-DVF_NO_CANCEL_POINTS", "-DVF_SELECT_READY", "-DVF_SALT=81"]),
            INP("dummy", "asan", "DUM", 1500, 40000), INP("dummymsan", "msan", "DUM", 500, 10000),
            INP("uartmt", "asan", "RCU", 2400, 20000, opts={"mode": 1}), INP("uartmtO2", "plain", "RCU", 2400, 20000, opts={"mode": 1})])

WDDWR = HWWR + ["getuid", "geteuid", "getgid", "getegid", "setgroups", "initgroups", "setgid", "setegid", "setregid", "setresgid", "setuid", "seteuid", "setreuid", "setresuid", "chdir", "getpwnam_r", "getgrnam_r", "sysconf", "malloc"]
def WDD(name, variant, quick, thorough):
    return S(name, variant, [("radarcape/wd-main.c", ["-Dmain=wd_main"]), ("util/util.c", ["-DHAVE_SETUID"])] + HWSRC, [("h_gpio.cpp", ["-DWDD"]), "log_stub.c"], quick, thorough, opts={"mode": 3}, wraps=WDDWR, defs=['-DFWDIR="fw"'])
CHECKS["C36"] = dict(
    rule="daemon started with random credentials, account data bases (accounts missing, failing look-ups, no memory), arguments and hardware faults on trapped registers; virtual time; some real drops in child processes; distinct by these",
    need={"privileges_dropped": 1000, "unprivileged": 150, "failed_starts": 300},
    stages=[WDD("wdd", "asan", 1500, 40000), WDD("wddO3", "ndebug", 1500, 40000)])

CHECKS["C39"] = dict(
    rule="the start script and the installation, upgrade and removal scripts run for real, unprivileged, in a scratch root with stand-ins for kernel log, overlay list, service manager and account tools: all boards and kernel generations, "
         "overlays loaded before, histories of installation, upgrade and removal with the service enabled or running, every removal argument with and without account, group and data; distinct by these",
    need={"started": 300, "not_started": 150, "overlays_loaded": 100, "installs": 500, "upgrades": 300, "removals": 200, "purges": 200, "kept": 200},
    stages=[S("startrc", "asan", [], ["h_scripts.cpp"], 1200, 20000, opts={"mode": 0}, defs=PKGD[1:]), S("services", "asan", [], ["h_scripts.cpp"], 700, 10000, opts={"mode": 1}, defs=PKGD[1:]), S("removal", "asan", [], ["h_scripts.cpp"], 800, 10000, opts={"mode": 2}, defs=PKGD[1:])])

# ---- the same harnesses with MemorySanitizer and as the Debian package is built (-O3 -DNDEBUG)
def also(check, variants=("msan", "ndebug"), part=5, names=None):
    for st in list(CHECKS[check]["stages"]):
        if isinstance(st, dict) and st["variant"] == "asan" and (not names or st["name"] in names):
            for v in variants:
                c = dict(st); c["name"] = st["name"] + v; c["variant"] = v
                c["quick"] = max(1, st["quick"] // part); c["thorough"] = max(1, st["thorough"] // part)
                CHECKS[check]["stages"].append(c)
for _c in ("C01", "C03", "C32", "C04", "C05", "C07", "C19", "C20", "C13", "C33"):
    also(_c)
# harnesses using much of the C++ library, which is not instrumented for MemorySanitizer: valgrind in its place
for _c in ("C15", "C16", "C34", "C21"):
    also(_c, ("ndebug",))
    also(_c, ("memcheck",), 60)
for _c in ("C14", "C17", "C25", "C28", "C29"):
    also(_c, ("memcheck",), 60)
for _c in ("C26", "C27", "C29", "C17", "C14"):
    also(_c, ("ndebug",))
for _c, _n in (("C22", ("librc",)), ("C23", ("libgp",)), ("C10", ("feed",)), ("C31", ("dmnfeeder", "dmndonated", "dmnkit", "dmnrc"))):
    also(_c, ("memcheck",), 16 if _c == "C31" else 40, _n)
also("C35", ("ndebug",), 5, ("uartrc", "uartgps", "netrc", "netgps"))
also("C35", ("memcheck",), 40, ("uartrc", "uartgps"))
CHECKS["C14"]["stages"] += [DMN("cmddmn" + k, "asan", k, q, 10 * q) for k, q in (("feeder", 16), ("donated", 32), ("kit", 16), ("rc", 16), ("std", 32))]
