#!/usr/bin/env python3
"""Writes KNOWN_FINDINGS: one line per defect repaired in /repo, with the fix commit looked up by its subject."""
import os, subprocess
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
F = [
 ("C24", "fix: do not call handlers of file events removed earlier in the same round", "a handler was called after its registration had been removed by another handler of the same round"),
 ("C23", "fix: do not run time events removed earlier in the same round", "a timer removed by another callback of the same round still ran"),
 ("C23", "fix: drive timers by the monotonic clock", "a wall clock jump backwards stopped all timers, a jump forwards fired them early"),
 ("C23", "fix: run due time events when the wait is interrupted", "EINTR from epoll_wait postponed due timers without bound"),
 ("C01", "fix: send replies only after the before-sleep hook of their round", "with EPOLLIN and EPOLLOUT in one round the reply left before the log record was written and synced"),
 ("C11", "fix: wait for the CRLF of a bulk string before looking at it", "a bulk string whose CRLF arrived in the next segment broke the connection or the server"),
 ("C11", "fix: keep the unprocessed input when a command is done", "pipelined commands behind the first one were dropped"),
 ("C11", "fix: accept empty bulk strings", "an empty argument was rejected"),
 ("C13", "fix: reject negative and absurd lengths in requests instead of panicking", "*-1, $-1, huge lengths crashed the server"),
 ("C13", "fix: ignore blank lines instead of panicking", "an empty inline line crashed the server"),
 ("C13", "fix: do not panic on empty arguments, empty lines and empty lengths", "empty arguments and empty length fields crashed the server"),
 ("C19", "fix: release the client when reading from it fails", "a connection reset left its descriptor and registration behind"),
 ("C25", "fix: bind and connect to the given address", "the server listened on every address whatever was configured"),
 ("C15", "fix: find list elements of the second half that are not in the first page", "LINDEX/LRANGE crashed or returned wrong elements of lists longer than a page"),
 ("C13", "fix: do not panic on ranges with a huge end", "LRANGE/ZRANGE with a huge end crashed the server"),
 ("C17", "fix: remove the old node when the score of a sorted set member changes", "a re-scored member was listed twice"),
 ("C17", "fix: count the rank across levels when removing a range by rank", "ZREMRANGEBYRANK removed the wrong members"),
 ("C05", "fix: copy collections too in the snapshot taken for a log rewrite", "the background dump shared collections with the event loop: races, crashes and commands applied twice"),
 ("C13", "fix: reject negative database indexes instead of panicking", "SELECT -1 crashed the server"),
 ("C14", "fix: SUNION must not be empty because its first key does not exist", "SUNION of a missing and an existing key was empty"),
 ("C14", "fix: apply ZADD as a whole or not at all, reject NaN scores", "ZADD with a bad later score was half applied; NaN scores broke the order"),
 ("C11", "fix: keep error replies on a single line", "an error reply echoing CR or LF broke the reply stream"),
 ("C07", "fix: log a command that changed data even if its reply cannot be queued", "the command was executed but missing in the log"),
 ("C09", "fix: treat expired keys as absent in TTL and in commands that add to collections", "TTL of an expired key was negative or huge, writes resurrected expired data"),
 ("C09", "fix: do not set deadlines on keys that do not exist", "EXPIRE on a missing key put a deadline on the key created later"),
 ("C14", "fix: remove collections that become empty", "empty collections stayed behind as keys"),
 ("C07", "fix: log the member removed by SPOP", "SPOP was logged as such and removed another member at replay"),
 ("C08", "fix: log the selected database after a start and when a rewrite starts", "after a restart, or with a rewrite, commands were recovered in the wrong database"),
 ("C04", "fix: log SETEX as one record", "a cut between SET and EXPIREAT recovered half a command, a key without its deadline"),
 ("C05", "fix: keep the order of lists in a log rewrite", "lists came back reversed after a rewrite"),
 ("C05", "fix: write scores before members in a log rewrite", "sorted sets were dumped as member score and lost or made the log unreadable"),
 ("C04", "fix: load records of any size, drop a record cut by a crash, make what was loaded durable", "a torn tail, or a log larger than the buffer, prevented the start or lost data"),
 ("C10", "fix: log the removal of expired keys, do not expire keys while the log is loaded", "data written after a key's expiry was lost or got the old deadline at replay"),
 ("C03", "fix: sync the log with everysec also when idle, do not crash when it is replaced meanwhile", "the last writes before an idle period were never synced; the background sync crashed the server when the log was replaced"),
 ("C06", "fix: switch to the rewritten log in one atomic step, once it is complete and on disk", "a crash during the switch lost the log; a temporary directory on another filesystem made it non-atomic"),
 ("C22", "fix: count the growth of the log from its size at startup", "after a restart the log was rewritten at once, or never, whatever its growth"),
 ("C13", "fix: refuse a log rewrite without a file name instead of panicking", "BGREWRITEAOF with the log off crashed the server"),
 ("C03", "fix: sync the log on stop", "an orderly stop left the last second unsynced"),
 ("C21", "fix: a log rewrite that runs out of descriptors is given up instead of bringing the server down", "descriptor shortage while a log rewrite opened a file crashed the server"),
 ("C09", "fix: a time to live too large to be counted in milliseconds is refused instead of wrapping around", "EXPIRE k 9223372036854775807 deleted the key at once, other huge values gave wrong deadlines"),
 ("C15", "fix: LINDEX counts negative indexes from the end like LRANGE", "LINDEX with a negative index returned nothing"),
 ("C27", "fix: a mistake in the configuration file edited while the server runs no longer brings it down", "a value of the wrong type in the edited file ended the server"),
 ("C03", "fix: a background rewrite finishing while the server stops no longer panics before the log is synced", "a log rewrite finishing during an orderly stop crashed the server before the last writes were synced"),
 ("C17", "fix: a score range bounded by NaN is refused instead of selecting arbitrary members", "ZREMRANGEBYSCORE key nan 4 removed every member up to 4, the other range commands selected arbitrary members"),
 ("C03", "fix: the listening socket is closed once when the server stops, not again when its descriptor may belong to another file", "the descriptor of the listener was closed twice during an orderly stop, the second time it was that of the file of a rewrite, whose failure crashed the server before the last writes were synced"),
 ("C21", "fix: a server asked to stop before it is ready stops instead of panicking", "a signal in the first moment after the start ended the server by a nil pointer"),
 ("C02", "fix: the log is not closed on stop while the event loop may still be writing or syncing it", "an orderly stop closed the log under the event loop, which panicked in its write, its fsync or the fsync after loading"),
]
log = dict(reversed(l.split(" ", 1)) for l in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines())
with open(os.path.join(V, "KNOWN_FINDINGS"), "w") as f:
    f.write("# Defects found in IfanTsai/metis. All are repaired; nothing listed here is suppressed by any check.\n")
    for p, s, w in F: f.write("fixed: property=%s %s %s\n" % (p, log.pop(s), w))
left = [s for s in log if s.startswith("fix:")]
if left: print("not listed:", left)
