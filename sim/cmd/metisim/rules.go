package main

// rules say per property how its cases are made (for the evidence file).
var rules = map[string]string{
	"C01": "appendfsync=always, 1-3 lives, 1-3 clients with mixed commands on up to all databases, rewrites now and then; power is cut at a randomly drawn system call of each life, counted in a fault-free run first",
	"C02": "any fsync policy, 1-3 lives, 1-3 clients; the process is killed at a drawn system call, or stopped in an orderly way at a drawn time",
	"C03": "appendfsync=everysec, bursts and steady streams with pauses of up to seconds, rewrites that last for seconds, slow background disk calls, clock jumps; power is cut at a drawn millisecond",
	"C04": "the log of the first life is cut at a drawn byte, followed by 1-3 further lives with writes and kills at drawn system calls",
	"C05": "datasets of all types and of sizes around the chunk limits, requested and automatic rewrites under concurrent writes with dense preemption, then kill or stop and restart",
	"C06": "as C05, with a kill, a power loss or a failing disk call at a drawn step between the start of the rewrite and after the switch; temporary directory on the same or another filesystem",
	"C07": "every command of the table with arbitrary arguments and sizes beyond every buffer, errors and no-ops included, several restarts with commands in between",
	"C08": "2-4 clients on different databases, selecting at random, with restarts, crashes and rewrites",
	"C09": "deadlines of seconds and below in every form, all commands around the deadline, wall clock jumps, background sampling",
	"C10": "deadlines in every form, writes around deadlines, rewrites slow enough for deadlines to pass, hundreds of keys expiring at one moment during a rewrite, downtimes of up to seconds with clock jumps while down, kill or stop",
	"C11": "request streams with arbitrary bytes in arguments, cut and joined at arbitrary points, pipelined, with short and interrupted reads",
	"C12": "replies of up to several hundred kB against small socket buffers, short and interrupted writes, readers that stall and resume",
	"C13": "hostile clients sending malformed, absurd and random requests and every command with wild arguments next to a well-behaved one",
	"C14": "2-5 clients on shared keys of all types, pipelined, with expiry and rewrites in the background",
	"C15": "lists of up to several thousand elements pushed and popped at both ends, read by index and range, rewrites, restarts",
	"C16": "hashes, sets and key counts crossing table resizes up and down, with listings by pattern, algebra and random picks at every step",
	"C17": "sorted sets with re-scored, tied, infinite, huge and almost equal scores, extreme ranks, all range and removal commands, biased tower heights",
	"C18": "connections with right, wrong and missing passwords, pipelined, closing and reusing descriptors",
	"C19": "clients closing, resetting and aborting at any step, with half-sent requests and undelivered replies, next to steady ones",
	"C20": "failing, short and interrupted disk calls at drawn positions and full disks, followed by restarts with the disk working",
	"C21": "episodes of network stalls, resets, slow disk, interrupted calls, descriptor shortage for clients and for the log and its rewrites, accept errors and clock jumps",
	"C22": "growth thresholds and minimum sizes of all magnitudes, endless updates of a bounded dataset, restarts; every change of the log's size is sampled",
	"C23": "package ae alone: timers added and removed from inside and outside callbacks, traffic, interrupted waits, clock jumps",
	"C24": "package ae alone: registrations added and removed inside and outside handlers, descriptor reuse, all readiness patterns, failing epoll_ctl",
	"C26": "configuration files in every format, size notation and order of lines, edited between the lives of the server; databases at the limits, passwords, addresses, sizes around the minimum, kill, stop and power loss",
	"C27": "as for C26, with edits of the configuration file while the server runs: other valid settings, files cut off, emptied, damaged, values of the wrong type or out of range",
	"C25": "every bind address (local or not) and port, failing socket calls at start, connection attempts to each of three local addresses",
}
