#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that edits stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=mech,
                     observe_at=observe or ["RESP replies on the client socket"], hook_needed=hook)))
def m(name, where): return dict(name=name, where=where)
def s(name, meaning, where): return dict(name=name, meaning=meaning, where=where)
NOTEST = "The existing tests never start a server with a log: no test enters the AOF code at all (9 of 103 server functions are entered), and "

prop("C01", "Acknowledged writes survive power loss with appendfsync=always",
 "With the append-only log on and appendfsync=always, every command whose reply the server has handed to the client's connection is still reflected in the dataset after the machine loses power at any instant and the server is restarted. The recovered dataset is exactly the result of executing some prefix of the commands, in the order the server executed them, that includes every replied one; a command is never half applied. A reply is therefore never sent before the log record of its command, and of every command it depends on, is on stable storage.",
 ["crash_points", "schedules", "histories"], "all client histories (several connections, pipelining), all socket-readiness orders, all power-loss instants including inside a log write, with any loss of unsynced data and directory entries",
 NOTEST + "a crash between two particular system calls cannot be produced by a unit test.",
 ["server/aof.go", "server/server.go", "server/command.go", "ae/ae.go", "server/client.go"],
 [m("log fed from command execution", "server/command.go call"), m("log flushed and fsynced before the loop waits for events", "server/server.go beforeSleepProc, server/aof.go flushAppendOnlyFile/aofFileSync"), m("replies only written by the writable handler", "server/client.go addReply, server/server.go sendReplayToClient"), m("order of readable and writable handlers of one connection", "ae/ae.go wait/processEvents")],
 [s("aofBuf", "executed, not yet written commands", "server/server.go Server"), s("replayHead", "replies not yet sent", "server/client.go Client")],
 ["RESP replies on the client socket", "dataset read back over RESP after restart"])
prop("C02", "Acknowledged writes survive the death of the server process",
 "With the append-only log on, under every appendfsync policy, every command whose reply was handed to the client's connection survives the death of the server process alone - a kill at any instant, or an orderly stop - followed by a restart on the same log. The recovered dataset is exactly the result of executing a prefix, in execution order, that includes every replied command.",
 ["crash_points", "schedules", "histories", "configurations"], "all histories, all kill instants and stop instants relative to the event loop and background tasks, all three fsync policies",
 NOTEST + "no test kills or stops the server.",
 ["server/aof.go", "server/server.go", "server/command.go"],
 [m("log written to the kernel before replies are sent", "server/server.go beforeSleepProc, server/aof.go flushAppendOnlyFile"), m("orderly stop", "server/server.go Stop"), m("replay", "server/aof.go loadAppendOnlyFile")],
 observe=["RESP replies on the client socket", "dataset read back over RESP after restart"])
prop("C03", "appendfsync=everysec loses at most about two seconds, and nothing after an orderly stop",
 "With appendfsync=everysec and a disk that completes each sync promptly, a power loss loses only commands replied to within the last two seconds before it, no matter whether the server was busy or had become idle after the last write. A power loss after the server was stopped in an orderly way (SIGINT, SIGTERM) loses nothing that was replied to before it was asked to stop, also with appendfsync=no. What is recovered is a prefix of the executed commands in execution order. The periodic sync never brings the server down while the disk works.",
 ["crash_points", "schedules", "histories"], "all traffic patterns (bursts followed by silence included), all power-loss instants, all interleavings of the background sync with the event loop and with a log rewrite",
 NOTEST + "loss windows depend on the clock and on which goroutine runs first.",
 ["server/aof.go", "server/server.go"],
 [m("once-per-second background fsync", "server/aof.go aofFileSync"), m("flush before sleep", "server/aof.go flushAppendOnlyFile"), m("log file replaced after a rewrite", "server/aof.go aofRewriteDoneCallback")],
 [s("aofLastFsyncTime", "when the last sync was started", "server/server.go Server")],
 ["dataset read back over RESP after restart", "process liveness"])
prop("C04", "A restart succeeds from any cut-off log and the log stays usable",
 "If the log ends in a partially written record, cut at any byte, as a crash leaves it, the server starts, recovers every complete record before the cut and nothing else, and serves clients. Commands it accepts afterwards are themselves recovered by later restarts, through any number of crashes in a row.",
 ["crash_points", "fault_sequences", "histories"], "all byte positions of the cut, all histories before it, all sequences of crash, restart and further writes",
 NOTEST + "no test loads a log, whole or cut.",
 ["server/aof.go", "server/server.go"],
 [m("log replay", "server/aof.go loadAppendOnlyFile"), m("log opened in append mode", "server/server.go NewServer")],
 observe=["server accepts connections after restart", "dataset read back over RESP"])
prop("C05", "A log rewrite preserves the dataset exactly",
 "After a log rewrite - requested by BGREWRITEAOF or automatic - has run concurrently with any client activity, restarting from the log gives the dataset the server held: the same databases, keys, types and values, list order, scores and expiry, with commands executed during the rewrite applied exactly once. Taking and dumping the snapshot never disturbs, blocks or crashes the serving of clients.",
 ["schedules", "histories", "inputs"], "all datasets (all five types, several databases, sizes around the chunking limits), all interleavings of the background dump with client commands, expiry and log flushes",
 NOTEST + "the outcome depends on which mutations land while the background goroutine is dumping.",
 ["server/aof.go", "database/database.go", "datastruct/dict.go", "server/server.go"],
 [m("snapshot", "database/database.go DeepCopy, datastruct/dict.go DeepCopy"), m("background dump", "server/aof.go rewriteAppendOnlyFile and rewrite*Object"), m("commands executed during the rewrite", "server/aof.go feedAppendOnlyFile aofRewriteBuf, aofRewriteDoneCallback")],
 [s("aofRewriteBuf", "commands executed since the snapshot", "server/server.go Server"), s("aofSelectDBID", "database the log is positioned on", "server/server.go Server")],
 ["dataset read back over RESP before and after a restart"])
prop("C06", "A crash or error at any point of a log rewrite loses nothing",
 "If the process dies, the machine loses power, or a disk operation fails at any step of a log rewrite, including while the rewritten file replaces the log, the next start still recovers every command that the configured appendfsync policy had made durable. The log is switched from old to new in one atomic step, the new one being complete and on stable storage first, so there is never a moment at which the log on disk is missing, partial or lacks commands executed during the rewrite.",
 ["crash_points", "fault_sequences", "schedules"], "all crash instants and all failing disk operations from the start of a rewrite to after the switch, temporary directory on the same or on another filesystem than the log",
 NOTEST + "no test runs a rewrite, let alone interrupts one.",
 ["server/aof.go"],
 [m("dump to a temporary file", "server/aof.go rewriteAppendOnlyFile"), m("replacement of the log", "server/aof.go aofRewriteDoneCallback")],
 observe=["dataset read back over RESP after restart", "server starts"])
prop("C07", "Restart reproduces the live dataset for every command and size",
 "For any history of commands - every command of the command table, random choices such as SPOP, keys and values of any bytes and any length, datasets larger than any internal buffer - stopping the server and starting it again on its log gives a dataset indistinguishable to clients from the one before. This holds through any number of restarts with further commands in between, and a command that was answered with an error, or that changed nothing, changes nothing after the restart either.",
 ["histories", "inputs", "schedules"], "all command histories over all types, all argument bytes and sizes, repeated restarts",
 NOTEST + "replay equivalence is over all histories.",
 ["server/aof.go", "server/command.go", "server/commandset.go", "server/commandzset.go", "server/commandlist.go", "server/commandhash.go", "server/commandstring.go"],
 [m("what is logged for a command", "server/command.go call, server/aof.go feedAppendOnlyFile"), m("replay", "server/aof.go loadAppendOnlyFile")],
 [s("dirty", "whether a command changed the dataset", "server/server.go Server")],
 ["dataset read back over RESP before and after a restart"])
prop("C08", "Databases stay separate, live, in the log and through a rewrite",
 "A command affects only the database its connection has selected: interleaved commands of connections on different databases never read or change another database's keys. The same holds for what is recovered after a restart, a crash or a log rewrite: every key comes back in the database it was written in, whatever database was selected before the restart or when the rewrite started.",
 ["schedules", "histories", "crash_points"], "all interleavings of connections selecting and using different databases, across restarts and rewrites at any point",
 NOTEST + "the log is one stream shared by all connections, so the outcome depends on the interleaving.",
 ["server/aof.go", "server/commandconnection.go", "server/client.go", "server/server.go"],
 [m("SELECT", "server/commandconnection.go selectCommand"), m("database marker in the log", "server/aof.go feedAppendOnlyFile, rewriteAppendOnlyFile, loadAppendOnlyFile")],
 [s("aofSelectDBID", "database the log is positioned on", "server/server.go Server")],
 ["RESP replies on the client socket", "dataset read back over RESP after restart"])
prop("C09", "Keys live exactly until their deadline",
 "A key with a time to live stays readable with its value until its deadline and behaves, for every command that reads or writes it, as if absent from its deadline on; keys without one never expire, and SET clears an earlier one. TTL reports -2 for an absent or expired key, -1 for a key without deadline and otherwise the remaining seconds. Writing to an expired key starts from an empty key, and expiring one key never affects another.",
 ["schedules", "histories", "inputs"], "all histories, all instants around the deadline, all interleavings with the background expiry sampling, wall clock jumps included",
 "No test covers expiry; the outcome depends on the clock and on whether the background sampling or a command gets to an expired key first.",
 ["server/command.go", "server/commandkey.go", "server/commandstring.go", "server/server.go"],
 [m("lazy expiry", "server/command.go expireIfNeeded and get*IfExist"), m("background expiry", "server/server.go databasesCron"), m("deadlines", "server/commandkey.go expireCommand/expireAtCommand/ttlCommand")],
 [s("Expire", "deadline per key", "database/database.go Databse")])
prop("C10", "Deadlines survive restarts and rewrites as absolute times",
 "After a restart or a log rewrite followed by a restart, a key that had a deadline still has the same deadline to within one second - time spent down counts - and a key that had none still has none. A key that had expired before the restart stays expired, and data written to a key after its previous incarnation expired is recovered in full and without the old deadline.",
 ["histories", "crash_points", "schedules"], "all histories of EXPIRE, EXPIREAT, SETEX, SET and writes around deadlines, all downtimes, with or without rewrites, crash or orderly stop",
 NOTEST + "relative times in the log and expiry during replay only show with clock control.",
 ["server/aof.go", "server/command.go", "server/commandkey.go", "server/server.go"],
 [m("relative times logged as absolute", "server/aof.go catAppendOnlyExpireCommand, feedAppendOnlyFile"), m("deadlines in the rewritten log", "server/aof.go rewriteAppendOnlyFile"), m("replay of records for keys that expired", "server/aof.go loadAppendOnlyFile")],
 observe=["TTL and reads over RESP after restart"])
prop("C11", "Commands are framed the same however TCP splits or joins them",
 "However the bytes a client sends are cut into segments or joined, with any number of commands sent ahead without waiting, the server executes exactly the commands that were sent, each once and in order, with arguments byte for byte as sent - empty arguments and arguments containing CR, LF or NUL included - and answers each with one reply in order. A command is executed only when it is complete.",
 ["schedules", "inputs"], "all segmentations and coalescings of all request streams, reads returning any number of bytes, interrupted reads",
 "The three parser tests feed one complete request each in one piece; segmentation and pipelining multiply into unboundedly many arrivals.",
 ["server/resp.go", "server/server.go", "server/client.go"],
 [m("incremental parsing", "server/resp.go processInputBuffer, processMultiBulkBuffer"), m("reading into the query buffer", "server/server.go readQueryFromClient"), m("per-command reset", "server/client.go reset")],
 [s("queryBuf/queryLen/multiBulkLen/bulkLen", "parser position between reads", "server/client.go Client")])
prop("C12", "Replies arrive complete, in order and once, however slowly they drain",
 "Every client receives exactly the replies to its own commands, byte for byte, in the order it sent them, none lost, duplicated, truncated or interleaved, however small the socket buffer, however slowly it reads and however many replies are queued. A client that does not read delays no other client, and its replies continue where they stopped once it reads again.",
 ["schedules", "fault_sequences"], "all patterns of partial writes, full socket buffers, interrupted writes and reader stalls, across concurrent connections",
 "No test sends a reply through the server; partial writes depend on the kernel buffer at that instant.",
 ["server/server.go", "server/client.go", "ae/ae.go"],
 [m("reply queue", "server/client.go addReply"), m("writable handler", "server/server.go sendReplayToClient"), m("writable registration", "ae/ae.go AddFileEvent/RemoveFileEvent")],
 [s("replayHead/sentLen", "queued replies and how much of the first is sent", "server/client.go Client")])
prop("C13", "No client input can bring down or wedge the server",
 "Whatever bytes a client sends - malformed or absurd lengths, blank lines, any command with any arguments and any argument count, connections dropped half way through a request - the server process stays alive and keeps serving the other clients within bounded time. At worst the offending request is answered with an error or its connection is closed; the data of other keys is unaffected.",
 ["inputs", "schedules", "fault_sequences"], "all byte streams, in all segmentations, concurrently with well-behaved clients; memory limits are not part of the claim",
 "The tests feed six well-formed requests.",
 ["server/resp.go", "server/command.go", "server/commandconnection.go", "server/commandlist.go", "server/commandzset.go", "datastruct/quicklist.go", "datastruct/skiplist.go"],
 [m("protocol checks", "server/resp.go"), m("argument checks", "server/command*.go"), m("range clamping", "datastruct/quicklist.go Range, datastruct/skiplist.go RangeByRank")],
 observe=["process liveness", "RESP replies of the other clients"])
prop("C14", "Concurrent clients observe atomic commands in one common order",
 "For any set of concurrently connected clients, all replies are explained by executing the commands one at a time in a single order that respects each client's sending order and real time, each command having the result its data type defines: strings, hashes, lists, sets (with SINTER, SUNION, SDIFF), sorted sets, key listing and random picks. A multi-element command is applied as a whole, a command on a key of another type fails without changing it, and a collection that becomes empty no longer exists.",
 ["schedules", "histories"], "all interleavings of all multi-client histories, with background expiry and log rewrites going on",
 "No test drives two clients, and none runs a command handler.",
 ["server/command.go", "server/commandstring.go", "server/commandhash.go", "server/commandlist.go", "server/commandset.go", "server/commandzset.go", "server/server.go", "datastruct/dict.go"],
 [m("single-threaded execution in the event loop", "ae/ae.go processEvents, server/command.go call"), m("type checks", "server/command*.go get*")])
prop("C15", "Lists keep every element in order at any length",
 "A list of any length behaves as the sequence its pushes and pops define: LPUSH and RPUSH add at the stated end, LPOP and RPOP remove from it, LLEN, LINDEX and LRANGE (negative indexes included) return exactly the elements at those positions. No element is lost, duplicated or moved as the list grows or shrinks through internal page boundaries, while a background rewrite copies it, or across a restart.",
 ["histories", "schedules"], "all histories of list commands by several clients, list lengths beyond several pages, rewrites and restarts in between",
 "The quicklist tests cover a few fixed sequences; page splits and removals combine into unboundedly many layouts.",
 ["datastruct/quicklist.go", "server/commandlist.go", "server/aof.go"],
 [m("paged list", "datastruct/quicklist.go Insert/Remove/get"), m("list commands", "server/commandlist.go")])
prop("C16", "Hashes, sets and the keyspace keep every entry while tables resize",
 "At any size, and at any moment while their tables are being resized step by step, hashes, sets and the keyspace contain exactly the entries that were added and not removed: lookups, counts, listings, set algebra and random picks agree with each other, and each entry is listed once. KEYS lists exactly the live keys its pattern matches. This holds when listings, expiry and snapshots overlap with a resize.",
 ["histories", "schedules"], "all histories of insertions, removals and lookups crossing any number of resizes, interleaved with listings, expiry and rewrites",
 "The dict tests insert keys in bulk and look them up; they do not mix listing, deletion and random picks with a resize in progress.",
 ["datastruct/dict.go", "datastruct/set.go", "server/commandhash.go", "server/commandset.go", "server/commandkey.go"],
 [m("incremental rehashing", "datastruct/dict.go rehash/Set/Find/Delete/GetRandomKey"), m("iterators pausing the rehash", "datastruct/dict.go DictIterator")],
 [s("rehashIndex/iterators", "resize progress and running iterators", "datastruct/dict.go Dict")])
prop("C17", "Sorted sets stay ordered, unique and consistent with their scores",
 "A sorted set holds each member once, with the score last given to it; ZRANGE and ZRANGEBYSCORE return members by ascending score and, for equal scores, by member; ZCARD, ZCOUNT and ZSCORE agree with them. ZREM, ZREMRANGEBYRANK and ZREMRANGEBYSCORE remove exactly the members they name. This holds for any history of updates and removals and for any random internal layout.",
 ["histories", "schedules", "inputs"], "all histories of sorted-set commands, all tower heights drawn for the index, infinite and tied scores",
 "The tests cover a few fixed sequences and none re-scores a member or removes by rank across several levels; layouts depend on random numbers.",
 ["datastruct/skiplist.go", "datastruct/zset.go", "server/commandzset.go"],
 [m("skip list with spans", "datastruct/skiplist.go Insert/Delete/DeleteRangeByRank"), m("member table kept in step", "datastruct/zset.go Add/Delete")])
prop("C18", "Without the password no command but AUTH has any effect",
 "With requirepass set, a connection that has not sent the right password on that very connection gets an error for every command other than AUTH, and the command neither returns data nor changes any. The right password opens that connection only, a wrong one leaves it (or makes it again) closed, and nothing carries over to a later connection, in any pipelining or interleaving of connections being opened and closed.",
 ["schedules", "histories", "inputs"], "all interleavings of authenticated and unauthenticated connections, pipelined AUTH, reconnects reusing the same descriptor",
 "No test covers authentication.",
 ["server/command.go", "server/commandconnection.go", "server/client.go"],
 [m("gate before execution", "server/command.go processCommand"), m("AUTH", "server/commandconnection.go authCommand")],
 [s("authenticated", "per connection", "server/client.go Client")])
prop("C19", "A closed connection leaves nothing behind and harms no other",
 "When a client disconnects at any moment - idle, in the middle of a request, with replies pending, by close or by reset - the server releases that connection's descriptor exactly once, and neither its leftover input, its pending replies, its selected database nor any late event for it reaches another connection or an open file, even one that reuses the same descriptor. Other connections are unaffected, and after all clients have gone the server holds no descriptor for them.",
 ["schedules", "fault_sequences"], "all instants of close and reset relative to readiness events, replies and background file activity, with immediate descriptor reuse",
 "No test disconnects a client from a running server.",
 ["server/client.go", "server/server.go", "ae/ae.go"],
 [m("free", "server/client.go free"), m("stale events", "ae/ae.go wait/processEvents"), m("error paths of the handlers", "server/server.go readQueryFromClient/sendReplayToClient/acceptTCPHandler")],
 observe=["descriptor table of the server process", "RESP replies on the client sockets"])
prop("C20", "Disk errors never turn into acknowledged but lost writes",
 "If a log write or sync fails, is cut short, or the disk is full, the server either goes on with nothing lost or stops; it never acknowledges a command that the next start does not recover under the configured policy, never recovers something that was not a prefix of the executed commands, and never leaves a log it cannot start from once the disk works again.",
 ["fault_sequences", "crash_points", "histories"], "all placements of failing, short and interrupted writes, failing syncs, failing opens and full disks, followed by restart with the disk working again",
 NOTEST + "no test injects a disk error.",
 ["server/aof.go", "server/server.go"],
 [m("error handling of write and fsync", "server/aof.go flushAppendOnlyFile, aofFileSync"), m("recovery", "server/aof.go loadAppendOnlyFile")],
 observe=["RESP replies", "dataset read back over RESP after restart"])
prop("C21", "Once faults stop, requests and background work finish in bounded time",
 "After any episode of stalled or reset connections, interrupted system calls, slow disk, descriptor shortage or wall clock jumps in either direction, and as soon as the episode is over, every request of a connected client is answered, new connections are accepted, a requested log rewrite completes and expired keys go away within a bounded time. A server asked to stop exits within bounded time. The server never deadlocks or spins.",
 ["fault_sequences", "schedules"], "all episodes of such faults in any combination, bound: 15 simulated seconds after the last fault",
 "Liveness under faults needs a controlled clock and controlled faults.",
 ["ae/ae.go", "server/server.go", "server/aof.go"],
 [m("event loop waits and timers", "ae/ae.go wait/getNearestTime/processEvents"), m("server cron", "server/server.go serverCron"), m("rewrite completion", "server/aof.go aofRewriteDoneCallback")],
 [s("when", "next due time of a timer", "ae/ae.go TimeEvent")])
prop("C22", "Automatic rewrites happen when configured and keep the log bounded",
 "When the log is larger than auto-aof-rewrite-min-size and has grown by at least auto-aof-rewrite-percentage since the last rewrite, a rewrite runs within bounded time and afterwards the log has a size proportional to the dataset; so the log of a bounded dataset stays bounded under endless updates. With percentage 0, or below the minimum size, no automatic rewrite runs, and at most one rewrite runs at a time.",
 ["histories", "configurations", "schedules"], "all histories and sizes around the thresholds, all percentages, rewrites overlapping with further growth, restarts in between",
 "No test reaches the server cron.",
 ["server/server.go", "server/aof.go"],
 [m("growth test in the cron", "server/server.go serverCron"), m("size accounting", "server/aof.go flushAppendOnlyFile, aofRewriteDoneCallback")],
 [s("aofCurrentSize/aofRewriteBaseSize", "sizes compared by the trigger", "server/server.go Server")],
 ["size of the log file", "rewrites observed on the filesystem"])
prop("C23", "Event loop timers fire on time, once or repeatedly, until removed",
 "A one-shot timer's callback runs exactly once and not before its interval has elapsed; a repeating timer's callback keeps running, each time at least its interval after the previous one, as long as it is registered. A removed timer never runs again, even when removed by another callback of the same round. Due timers run within a bounded delay regardless of traffic, interrupted waits and wall clock jumps.",
 ["schedules", "histories", "fault_sequences"], "all histories of adding and removing timers from inside and outside callbacks, with traffic, interrupted waits and clock jumps",
 "The one test uses two timers and never removes one or moves the clock.",
 ["ae/ae.go"],
 [m("timer list", "ae/ae.go AddTimeEvent/RemoveTimeEvent"), m("due timers", "ae/ae.go wait/processEvents/getNearestTime")],
 observe=["timer callbacks"])
prop("C24", "The event loop calls a handler only for live, ready registrations",
 "A handler registered for reading (writing) on a descriptor is called when and only when that descriptor is readable (writable) and the registration is still in place, with the client data registered with it: never after its removal - even by another handler of the same round - and never for a later registration's descriptor. Registering and removing one direction leaves the other in place, no ready registration is starved, and the before-sleep hook runs before every wait.",
 ["schedules", "histories"], "all histories of adding and removing registrations inside and outside handlers, all readiness patterns and orders, descriptor reuse, interrupted waits",
 "The one test uses one connection with one request.",
 ["ae/ae.go", "socket/socket.go"],
 [m("registration table", "ae/ae.go AddFileEvent/RemoveFileEvent/getEpollEventMask"), m("dispatch", "ae/ae.go wait/processEvents")],
 observe=["handler callbacks"])
prop("C25", "The server is reachable on the configured address only",
 "The server accepts connections on the address and port given by the configuration and on no other local address; with 0.0.0.0 it accepts on all. It can be started again on them at once after it ended, whatever connections it left behind.",
 ["configurations", "schedules"], "all configured addresses, connection attempts to every local address at any time after start and across restarts",
 "The one socket test connects to the loopback address of a server that was asked to bind it and would not notice a server bound to every address.",
 ["socket/socket.go", "server/tcp.go", "server/server.go"],
 [m("bind", "socket/socket.go Bind"), m("listen", "server/tcp.go CreateTCPServer")],
 observe=["connection attempts on each local address"])
prop("C26", "Every option of the configuration file takes effect as written",
 "The server started on a configuration file behaves as that file says, whatever its format (TOML, YAML, JSON), the order of its lines and the notation of sizes, and a changed file takes effect at the next start: it answers on the bound address and port with the configured number of databases and password, keeps the log under the configured name exactly when appendonly is on, syncs it under the configured policy, rewrites it at the configured growth and size, and writes log messages of the configured level and above to the configured log file. Changing options between starts loses no logged data.",
 ["configurations", "crash_points", "histories"], "all configuration files of valid values, edited between any lives of the server that end by stop, kill or power loss",
 "No test loads a configuration file or starts the program.", ["config/config.go", "cmd/root.go", "log/log.go", "server/server.go"],
 [m("LoadConfig", "config/config.go"), m("start and stop of the program", "cmd/root.go run"), m("options read at start", "server/server.go NewServer"), m("log options", "log/log.go InitLogger")],
 observe=["RESP replies on each local address", "files written", "log messages"])
prop("C27", "Editing the configuration file never disturbs a running server",
 "Whatever the configuration file comes to contain while the server runs - other valid settings, a file cut off or emptied half way through an edit, syntax errors, values of the wrong type or out of range - the server stays up, keeps answering every client, old or new, with the address, password, databases, log file and policies it was started with, and loses or changes no data. The next start follows the file as it is then.",
 ["histories", "schedules", "crash_points"], "all contents and times of edits, singly and in bursts, while clients work, connect and log rewrites run, and all ways the life of the server ends afterwards",
 "No test loads a configuration file, let alone edits it under a running server.", ["config/config.go", "server/server.go", "log/log.go"],
 [m("reload on change", "config/config.go LoadConfig"), m("options read at start", "server/server.go NewServer")],
 [s("config", "the options as last read", "config/config.go")],
 ["RESP replies on each local address", "process exit", "files written", "log messages"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
