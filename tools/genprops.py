#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements are readable and diffable)."""
import json, os
P = []
def prop(id, title, statement, over, otext, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": otext}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})

M = "pkg/monny/"
# ---------------------------------------------------------------- supervision
prop("C01", "The command's input and output pass through complete and in order",
 "Every line the monitored command writes to its stdout or stderr appears exactly once, unmodified apart from its line terminator and in the order written, on monny's own stdout respectively stderr, whatever the length of the lines, whatever bytes they contain and however the two streams interleave, and nothing else is added to them. "
 "Data piped into monny reaches the command's stdin complete and is followed by end of file. "
 "This also holds for what the command writes while it shuts down after a signal was forwarded to it.",
 ["inputs", "schedules"], "all line contents and lengths, all interleavings of the two streams, with or without piped stdin, with or without a slow reader",
 "tests run `echo`-like commands with a handful of short lines and never compare what reaches the output sinks",
 [M+"command.go"], [("line copying goroutines", M+"command.go Exec"), ("Wait waits for the output to be drained", M+"command.go Wait")],
 ["stdout/stderr of the monny process", "stdin seen by the child"])
prop("C02", "Reports carry exactly the most recent lines of output",
 "The stdout (stderr) of a report sent after the command's output ended is exactly the last min(N, lines written) lines of that stream in order, where N is the configured stdout (stderr) history, including N = 0 and N = 1. "
 "Any report sent earlier carries min(N, k) consecutive lines ending at line k, for some k between the lines already passed through when it was triggered and the lines written when it was received. "
 "Bytes that are not valid UTF-8 may be replaced, but the lines are still sent.",
 ["inputs", "histories", "schedules"], "all history limits, all numbers of lines written, all interleavings of output and reports",
 "no test fills the history, so trimming is never executed",
 [M+"command.go", M+"report.go"], [("trimming", M+"command.go processStdout/processStderr"), ("snapshot", M+"report.go reportFromCommand")],
 ["pb.Report.stdout / stderr received by the collector"])
prop("C03", "Exactly one truthful verdict is reported for a command that ends by itself",
 "When a command ends by itself exactly one verdict is triggered: a Success report if it exited 0 and all expected files exist, a Failure report if it exited non-zero or was ended by a signal; Success and Failure reports are suppressed exactly when their opt-out is configured, and no other kind of report is suppressed by an opt-out. "
 "The report's success flag, exit code and exit-code-valid flag describe what really happened: the code is the real one and is valid only for a process that exited. "
 "Finish is not before start and the duration is non-negative and agrees with the real elapsed time, also for killed commands. A command that can not be started has no verdict: nothing is reported, and monny ends with a non-zero status.",
 ["inputs", "configurations", "schedules"], "all ways a process can end, all opt-out combinations, all expected-file outcomes",
 "tests only look at the in-memory reason after exit codes 0 and 1; no report content is checked",
 [M+"handlers.go", M+"report.go"], [("verdict", M+"handlers.go handler.Finished"), ("gating", M+"report.go Report.Send")],
 ["pb.Report fields received by the collector"])
prop("C04", "The program never exits while a triggered report is undelivered",
 "The monny process ends only after every report that was triggered has been acknowledged by the collector, however quickly the command ends, however slowly the collector answers and however many reports are in flight. "
 "It does end by itself, with exit status 0, once they are all acknowledged and the command has ended.",
 ["schedules", "fault_sequences"], "all relative timings of command end, report triggers and collector answers",
 "the tests replace the report sender by a mock, so the wait is never executed against a pending report",
 [M+"command.go", M+"report.go", "cmd/monny/main.go"], [("Wait", M+"command.go Command.Wait"), ("registration of reports", M+"command.go sendReport")],
 ["exit of the monny process relative to collector acknowledgements"])
prop("C05", "Reports are retried unchanged until acknowledged and never after",
 "When the collector is unreachable, drops the connection, answers with an error or does not confirm a report, the same report is sent again, with the same content, until it is acknowledged or about an hour has passed. "
 "After a report is acknowledged it is never sent again. "
 "Collector trouble never blocks, kills or alters the output of the monitored command.",
 ["fault_sequences", "schedules"], "all finite sequences of transport errors, error answers and negative acknowledgements",
 "one test sends one report to a healthy server",
 [M+"report.go"], [("retry with backoff", M+"report.go sendBackground")],
 ["sequence of requests received by the collector"])
prop("C06", "Commands over a hard limit are killed exactly once, others never",
 "A command that is still running when timeout-kill elapses, or whose memory is measured at or above memory-kill, is killed and exactly one Killed report with reason Timeout respectively Memory is sent, and no Success or Failure report. "
 "A command that ends before the timeout and stays below the memory limit is never killed or reported as killed, and without a configured limit no command is killed. "
 "The timeout is never enforced early, and it is enforced promptly.",
 ["inputs", "schedules", "configurations"], "all run times and memory curves relative to all limits",
 "tests check a single sleeping command per limit, and no test checks that commands under the limit survive",
 [M+"handlers.go", M+"command.go", M+"memory.go"], [("timers", M+"command.go Exec"), ("kill", M+"handlers.go Timeout, KillOnHighMemory"), ("memory measurement", M+"memory.go")],
 ["survival of the child, Killed reports received by the collector"])
prop("C07", "Time and memory warnings are sent exactly once, and only when crossed",
 "A command that is still running after timeout-warn, or whose memory is measured at or above memory-warn, causes exactly one TimeWarning respectively MemoryWarning report per run, however long it stays above the limit. "
 "No warning is sent for a command that never crosses the limit or when no limit is configured. "
 "A warning does not disturb the command or the verdict.",
 ["inputs", "schedules", "configurations"], "all run times and memory curves relative to all limits",
 "tests call the handler with a mocked sender; no warning is ever followed to the collector",
 [M+"handlers.go", M+"report.go"], [("once-only flags", M+"handlers.go TimeWarning, CheckMemory"), ("sending", M+"report.go Send")],
 ["TimeWarning / MemoryWarning reports received by the collector"])
prop("C08", "Every line matching a rule is alerted, and alerts are never spurious",
 "Without a rate limit, every line on stdout or stderr that matches a configured rule is contained as a match in at least one delivered Alert report, also when matches arrive while earlier alerts are still being delivered. "
 "Every Alert report contains at least one match, every match it contains is a line really written that matches a rule with the right match positions, and a line that matches nothing never causes an alert. "
 "A match that was delivered before an alert was created is not contained in that alert again, and the matches within an alert are in the order found.",
 ["inputs", "schedules", "histories"], "all sequences of matching and non-matching lines, all rule sets, all delivery latencies",
 "tests check single lines against single rules and never let two alerts overlap",
 [M+"command.go", M+"report.go"], [("matching", M+"command.go checkRule"), ("triggering", M+"command.go processStdout/processStderr"), ("clearing delivered matches", M+"report.go clearMatches")],
 ["pb.Report.matches of Alert reports received by the collector"])
prop("C09", "Rate alerts are sent exactly when the configured rate is reached",
 "With a rule quantity Q (and period P), an AlertRate report is only ever sent when at least Q not yet delivered matches lie within the last P (or at all, without a period), and it contains them. "
 "When the Q-th such match arrives, an AlertRate report is sent; once it is delivered counting starts again with the matches that were not part of it. "
 "No plain Alert report is sent while a quantity is configured.",
 ["inputs", "schedules", "histories"], "all arrival patterns of matches relative to Q and P",
 "tests check the rate function on fixed lists, not the count over a run",
 [M+"report.go", M+"command.go"], [("rate", M+"report.go calcAlertRate"), ("restart", M+"report.go clearMatches")],
 ["AlertRate reports received by the collector"])
prop("C10", "JSON rules test exactly the named field and never fail",
 "A JSON rule matches a line exactly when the line is a JSON object whose named (possibly nested) field is a string, number, boolean or an array of those whose text matches the rule's expression; other fields and lines that are not JSON objects never match an expression that needs at least one character. "
 "Numbers are tested in the form of a decimal number with six decimals, booleans as true or false, and array elements one per line in order. "
 "No input line, however malformed, disturbs the command or the monitoring.",
 ["inputs"], "all field paths and all lines, including nested objects, arrays of mixed types, null, truncated and non-JSON lines",
 "one fixed document with five well-formed fields is tested",
 [M+"command.go"], [("field extraction", M+"command.go extractTextFromJSON"), ("matching", M+"command.go checkRule")],
 ["matches collected for a command's output"])
prop("C11", "Each missing expected file is reported, and only those",
 "When the command ends by itself, one FileNotCreated report is sent for each configured file that does not exist, with a message naming it; the run is not successful and no Success report is sent. "
 "If all configured files exist no FileNotCreated report is sent. "
 "The report that carries the verdict lists each existing configured file exactly once with its real size and time of modification.",
 ["inputs", "configurations"], "all sets of expected files, subsets created, and exit statuses",
 "one test with one existing and one with one missing file, without looking at reports",
 [M+"handlers.go"], [("file check", M+"handlers.go handleFileCreation, Finished")],
 ["FileNotCreated and verdict reports received by the collector"])
prop("C12", "A configuration means the same from the command line and from YAML",
 "Any set of options produces the same effective configuration whether given as flags, as keys of the YAML file, or split between them, with each option applied exactly once and every list element kept in order. "
 "Booleans given as false leave the option off, and options not given keep their documented defaults. "
 "Memory limits mean their value in K with M = 1000 K and G = 1000 M, durations and counts keep their value, and the words after the flags are the command, unchanged.",
 ["configurations"], "all combinations of options, values, scalar/list forms and sources",
 "tests check one option at a time",
 [M+"parse.go", M+"config.go"], [("flags", M+"parse.go parse, handleOption"), ("YAML", M+"parse.go parseFromFile"), ("defaults", M+"config.go newConfig")],
 ["Config of the Command returned by New", "first bytes sent to the configured host"])
prop("C13", "Invalid or incomplete configurations are refused before anything runs",
 "If any option is unknown, malformed or lacks a required form, if the identifier or the command is missing, if the configuration file cannot be read or parsed, or if the shell cannot be found, monny exits with a non-zero status and a message, without a crash, and without having started the command or sent a report. "
 "A valid configuration is never refused. "
 "Every invalid option handed to the constructor is reported.",
 ["configurations"], "all combinations of valid and invalid options and sources",
 "tests check one invalid option at a time and never the program",
 [M+"parse.go", M+"config.go", "cmd/monny/main.go"], [("validation", M+"config.go newConfig"), ("exit", "cmd/monny/main.go main")],
 ["exit status and output of the monny process, whether the child ran"])
prop("C14", "Termination signals reach the command and are reported",
 "Every interrupt or terminate signal sent to monny while the command runs is passed on to the command as the same signal, and the run is reported by exactly one Killed report with reason Signal and by no Success or Failure report. "
 "Monny itself is not ended by the signal: it lives until the command ends and its reports are delivered.",
 ["schedules", "inputs"], "all signal arrival times and all reactions of the command to the signal",
 "the handler is tested with a mocked sender; the trap itself is never executed",
 [M+"command.go", M+"handlers.go"], [("trap", M+"command.go Exec"), ("forwarding", M+"handlers.go Signal")],
 ["signals seen by the child, Killed reports, exit of monny"])

prop("C15", "Every report identifies its run and states the moment it was made",
 "Every report carries the identity, host name, command line and configuration the program was started with, and the same start time, which is when the command started. "
 "Its creation time is the time at which what it reports happened, no matter how much later it is delivered. "
 "No report claims anything that has not happened yet: success, exit code, killed, finish time and files describe a command that has really ended that way, and a kill reason is given exactly if the command was killed. "
 "The maximum memory of a report is at least every amount the command was seen to use before it, never much more than it ever used, and does not shrink.",
 ["inputs", "schedules", "fault_sequences"], "all identities, command lines and configurations, all moments at which reports are triggered and delivered, all memory curves",
 "tests check the conversion of one command to one report without sending it or looking at times",
 [M+"report.go", M+"config.go", M+"handlers.go", M+"memory.go"], [("snapshot", M+"report.go reportFromCommand"), ("peak memory", M+"handlers.go checkMemory"), ("identity", M+"config.go Config")],
 ["pb.Report fields received by the collector"])
prop("C16", "Internal errors neither leak private data nor disturb the command",
 "When something goes wrong inside monny (input or output that can not be passed on, a report that is not delivered within the hour), the error report it sends contains nothing of the command's input, output, command line, configuration or reports, and none is sent at all if error reports are switched off. "
 "If they are not, such a failure is reported while the program goes on running, and nothing is sent by a run in which nothing of the kind goes wrong. "
 "Whatever happens to error reports (accepted, refused, failing, never answered), output, verdict and reports of the command are the same, nothing of it appears in the command's output, and the program ends.",
 ["fault_sequences", "inputs"], "all faults of input, output and collector together with all behaviours of the error service",
 "tests replace the error reporter by a mock",
 [M+"error.go", M+"report.go", M+"command.go"], [("error reports", M+"error.go ReportError"), ("callers", M+"report.go Send, command.go Exec")],
 ["requests received by the error service, stdout and stderr of monny, reports received by the collector"])
prop("C17", "The command is run exactly once, exactly as it was given",
 "The command consists of the words that follow monny's own options (after the separator, if there is one), however they look: nothing is split, joined, expanded, dropped, added, resolved or taken for an option. "
 "Whatever options monny has, and however the command ends, it is started once, with its input, output and error output connected to monny and everything else as if it had been started in monny's place: "
 "environment, working directory, user, limits, umask, priority, ignored hang-up, open files, session and process group.",
 ["inputs", "configurations"], "all command lines of any words, names given as a path or looked up, environments and inherited attributes, all options of monny",
 "tests run a few fixed command lines in the environment of the test",
 [M+"command.go", M+"parse.go", "cmd/monny/main.go"], [("start", M+"command.go Exec"), ("words", M+"parse.go parse"), ("no wrapping", M+"command.go wrapComplexCommand")],
 ["words, environment and attributes seen by the command, number of times it was started"])
prop("C18", "Reports are only sent to the server they are meant for, and encrypted",
 "Unless insecure connections were asked for, everything that is sent to the configured address is TLS, nothing of a report can be read in it, and a report is only given to a server with a certificate that leads to a root trusted by the system, "
 "for the configured host name or address, valid now and for servers, over TLS 1.2 or newer, for every attempt and every report, however many attempts failed and whoever answered before. A report that can not be delivered like that is tried again, and is delivered once the right server answers. "
 "With insecure connections, reports are sent in the clear, and not to servers that speak TLS.",
 ["fault_sequences", "configurations", "inputs"], "all sequences of servers, right and wrong ones of every kind, that answer at the configured address, all ways to give host and option",
 "tests send reports only without TLS, to one server",
 [M+"report.go", M+"config.go", M+"parse.go"], [("credentials", M+"report.go create"), ("attempts", M+"report.go sendBackground"), ("option", M+"config.go Insecure")],
 ["bytes and reports received by servers at the configured address, end of the program"])
# ---------------------------------------------------------------- event bus, log processing
B = "pkg/eventbus/"
prop("C20", "Each event reaches each matching subscription exactly once",
 "While the bus is running, an event dispatched to some topics is delivered exactly once for every pair of a listed topic and a subscription to it, and exactly once to every default subscriber, provided the subscriber keeps receiving and stays subscribed; nobody else receives it. "
 "The delivered event has the type and the payload it had when it was created, whatever happens to the original data afterwards. "
 "The caller's topic list is not modified, and dispatching never blocks.",
 ["schedules", "histories", "inputs"], "all subscription sets, topic lists and interleavings of dispatching and receiving",
 "tests dispatch one event to at most two subscribers",
 [B+"bus.go", B+"event.go"], [("dispatch", B+"bus.go Dispatch"), ("encoding", B+"event.go NewEvent")],
 ["events received on subscriber channels"])
prop("C21", "A subscriber that does not receive never holds up anyone else",
 "However many events are pending for subscribers that are not receiving, dispatching, subscribing, unsubscribing any subscriber and shutting down complete without waiting for them, and other subscribers keep receiving their events. "
 "When the slow subscriber starts to receive again it gets the pending events.",
 ["schedules", "histories"], "all numbers of stuck subscribers and pending events, all following operations",
 "every test subscriber receives promptly",
 [B+"bus.go"], [("senders", B+"bus.go Dispatch"), ("closing", B+"bus.go closeChannel")],
 ["completion of bus operations, events received"])
prop("C22", "Shutdown closes every subscriber once and waits for all of them",
 "Shutdown closes the channel of every subscriber exactly once, whatever number of topics it subscribed to, returns nil only after every subscriber has signalled that it finished, and returns the timeout error only after its context ended, promptly. "
 "It never crashes, deadlocks or blocks other bus operations, also when subscribers use the bus while they finish or events are pending. "
 "Events dispatched after shutdown are dropped, a second shutdown is harmless, and a subscriber that subscribes after shutdown finds its channel closed.",
 ["schedules", "histories"], "all subscription sets, pending events, finishing orders, concurrent operations and context deadlines",
 "one test shuts down with idle single-topic subscribers",
 [B+"bus.go"], [("shutdown", B+"bus.go Shutdown, shutdownNotify")],
 ["result of Shutdown, state of subscriber channels"])
prop("C23", "Unsubscribing removes exactly that subscriber",
 "After Unsubscribe returns the subscriber's channel is closed once and receives nothing further than what was already buffered, on whatever number of topics it was subscribed; all other subscribers keep receiving exactly what they should. "
 "Shutdown does not wait for an unsubscribed subscriber. "
 "Unsubscribing twice or unsubscribing an unknown channel changes nothing for the others and does not crash.",
 ["histories", "schedules"], "all subscription sets and orders of unsubscription, with concurrent dispatch",
 "the test unsubscribes two of four single-topic subscribers without any event",
 [B+"bus.go"], [("unsubscribe", B+"bus.go Unsubscribe")],
 ["events received, state of channels, result of Shutdown"])
L = M+"proc/"
prop("C24", "The log history queue keeps exactly the newest lines",
 "After any sequence of additions and clears, a copy of the queue holds exactly the last min(capacity, added since the last clear) lines in order, for every capacity from 0 upwards. "
 "A copy does not change when the queue changes later. "
 "Used from several goroutines, every operation takes effect at one instant between its start and its end.",
 ["histories", "schedules", "inputs"], "all operation sequences, all capacities, all interleavings",
 "one capacity and at most three additions are tested",
 [L+"queue.go"], [("queue", L+"queue.go Add, Copy, Clear")], ["Queue.Copy"])
prop("C25", "The log processor turns every line into one event and one routed output line",
 "For a wrapped process, every line of its stdout and stderr is dispatched as exactly one log event with exactly that line and the time at which it was handled as payload, and written exactly once to the sink of its stream, in order per stream and nothing else; with the input of a stream switched off nothing of that stream is processed (neither events nor output), with its output switched off only its output is absent, and the other stream is unaffected. "
 "Without a wrapped process, monny's own stdin is the source and its stdout the sink. "
 "Wait returns nil only when all lines have been handled, an error only when its context ended first, and the order in which options are passed does not matter.",
 ["inputs", "configurations", "schedules"], "all line contents and lengths, all option subsets and orders, all interleavings",
 "tests check only the option filter functions",
 [L+"logs.go", L+"logopt.go"], [("emitter", L+"logs.go startLogEmitter"), ("routing", L+"logs.go NewLogProcessor"), ("option order", L+"logopt.go priority")],
 ["events on the log topic, stdout/stderr of the process"])
prop("C26", "The ticker ticks once per period until the bus shuts down",
 "A ticker with period d > 0 dispatches one event of the given type for every period that elapses and none in between; with d = 0 it dispatches none. "
 "When the bus shuts down the ticker stops, reports that it finished, so that shutdown succeeds, and leaves nothing running.",
 ["schedules", "inputs"], "all periods and shutdown times",
 "the test only checks that some tick arrives",
 [L+"ticker.go"], [("ticker", L+"ticker.go NewTicker")], ["events received, result of Shutdown, goroutines left"])

prop("C27", "A sink that fails costs the log processor only that sink",
 "When a sink can not be written to, every line that should have gone there yields exactly one error event of the kind SinkError on the error topic, whose text can be decoded, and no other line does. "
 "All log events are still dispatched, the other sink still receives all its lines in order, and Wait still returns nil when everything has been handled.",
 ["inputs", "fault_sequences", "schedules"], "all ways a sink can fail, all line contents, all option subsets, all interleavings",
 "no test makes a sink fail",
 [L+"logs.go"], [("sink errors", L+"logs.go NewLogProcessor")], ["events on the error topic and the log topic, remaining sink, result of Wait"])
prop("C28", "Event payloads arrive as they were sent, however often they are read",
 "What is put into an event comes out of it: decoding into a new receiver of the same type yields an equal value, whether it was passed as value or as pointer, as often as it is decoded and from any number of goroutines, also after the original was changed, after the event was copied and whatever other events were created in between. "
 "Decoding into a receiver of a different kind, or an event without data, returns an error and never panics. "
 "Type and String are what the event was created with. An error event decodes into a string or an error with the text of the original error; data that can not be encoded is refused with an error.",
 ["inputs", "histories", "schedules"], "all payload types and values, all histories of creating, changing, copying and decoding",
 "tests decode two events once each into a zero receiver (and the test of error events fails)",
 ["pkg/eventbus/event.go"], [("encoding", "pkg/eventbus/event.go NewEvent, NewErrorEvent"), ("decoding", "pkg/eventbus/event.go Decode")], ["result of Decode, Type, String"])
# ---------------------------------------------------------------- fsm
F = "pkg/fsm/"
prop("C30", "The state machine only ever takes declared transitions",
 "A transition succeeds exactly when it is declared for the current state and the machine is not stopped, and then the current state is its target; a refused transition leaves the state unchanged and returns a TransitionNotAllowed error. "
 "A stoppable machine refuses everything with a stop error after its first refused transition until it is reset, an ordinary one goes on; reset restores the initial state and removes the stop. "
 "Allowable answers exactly according to the declared transitions, however they were declared. A machine is made only if none of its options refuses.",
 ["histories", "configurations"], "all transition relations, options and call sequences",
 "two fixed call sequences are tested",
 [F+"fsm.go", F+"options.go", F+"transition.go"], [("transition", F+"fsm.go transition"), ("stop guard", F+"options.go stoppable")], ["State, Transition, Allowable"])
prop("C31", "Each nonce authorises at most one transition",
 "A nonce machine changes state only if it is given its current nonce and the transition is declared and the machine is not stopped. "
 "Every attempt, successful or not, and every reset replaces the nonce by a fresh one, so that no nonce is ever accepted twice and an old or guessed nonce is always refused with a nonce error. "
 "Apart from the nonce it behaves like the plain machine.",
 ["histories", "configurations"], "all call sequences with current, old, empty and foreign nonces",
 "three fixed call sequences are tested",
 [F+"nonce.go"], [("nonce guard", F+"nonce.go nonce.ok"), ("renewal", F+"nonce.go Transition, reset")], ["State, Transition, Nonce"])

# ---------------------------------------------------------------- metric
K = "pkg/metric/"
prop("C40", "A series holds exactly the most recent observations in order",
 "After any sequence of records and resets, the values of a series are the last `capacity` observations since the last reset from oldest to newest, or all of them followed by zeros while there are fewer. "
 "Count is the number of observations since the last reset and capacity never changes; initial values count as observations. "
 "Returned values do not change later, and a capacity below 1 or an empty name is refused.",
 ["histories", "inputs"], "all capacities and operation sequences",
 "few fixed sequences are tested",
 [K+"series.go"], [("ring", K+"series.go Record, Values")], ["Values, Count, Capacity, Name"])
prop("C41", "A sampled series records one value per elapsed window",
 "At the end of every sample window a sampled series records exactly one value: its transform applied to exactly the observations made in that window, each observation being used once, or 0 if there were none; the sample transforms are the sum, average, minimum and maximum of their argument, 0 for no observations, and do not change it. "
 "A capacity below 1 or an empty name is refused. With window 0 every observation is recorded directly. "
 "Reset discards observations of the current window, and nothing is recorded after done was called and returned.",
 ["histories", "schedules", "inputs"], "all observation times relative to window boundaries, all transforms",
 "tests check sums of a few windows with real sleeping",
 [K+"sampled.go"], [("window goroutine", K+"sampled.go NewSampledSeries"), ("transforms", K+"sampled.go Sample*")], ["Values, Count"])
prop("C42", "A windowed counter attributes every increment to exactly one window",
 "Every increment is counted in exactly one window; Value is the sum of the increments of the current window, or 0 once it has elapsed, and a counter without a window or an unset counter simply sums up. "
 "History lists the closed windows and HistoryInclusive also the open one, from oldest to newest, each with its start, duration and sum, restricted to the most recent MaxHistory entries and to those started within MaxHistoryDuration, as soon as these are configured. "
 "A history that was returned never changes afterwards, and reset empties everything.",
 ["histories", "schedules", "inputs"], "all sequences of increments, queries, resets and time steps, all window and retention settings",
 "four fixed scenarios with real sleeping are tested",
 [K+"counter.go"], [("rolling", K+"counter.go Add"), ("retention", K+"counter.go newHistory")], ["Value, History, HistoryInclusive"])
prop("C43", "Concurrent counters and series never lose or invent counts",
 "Operations on ConcurrentCounter and ConcurrentWindowedCounter (add, value, reset, history) and on SampledSeries (record, count, values, reset) from any number of goroutines each take effect at one instant between their start and their end. "
 "In particular the final value after concurrent additions is their exact sum and no query ever sees a value that no order of the operations explains.",
 ["schedules", "histories"], "all interleavings of operations from several goroutines",
 "five goroutines that only add are tested, without a forced schedule",
 [K+"counter.go", K+"sampled.go"], [("locks", K+"counter.go Concurrent*, "+K+"sampled.go")], ["results of concurrent calls"])
prop("C44", "A metric name is determined by its text and metadata, and copies are independent",
 "The string of a name is its text, followed, if there is any metadata, by a bracketed list of the metadata in sorted key order and then of the annotations in sorted order, whatever the order in which they were added; metadata added later replaces earlier values for the same key. Values that would be mistaken for more than one value (blanks, equal signs, quotes) are quoted as logfmt does. "
 "A name created without metadata accepts metadata and annotations later. "
 "A name copied from another shares nothing with it: changing one never changes the other.",
 ["inputs", "histories"], "all metadata maps and sequences of additions and copies",
 "single additions and one copy are tested",
 [K+"name.go"], [("rendering", K+"name.go MarshalText"), ("copying", K+"name.go NewNameFrom")], ["Name.String"])

# ---------------------------------------------------------------- stat
S = "pkg/stat/"
prop("C50", "A statistic follows its alarm life cycle and keeps its alarm",
 "A statistic starts by collecting a baseline, tests the upper limit once the baseline is complete and varies, and alarms when and only when its current value reaches the limit; once transitioned to the lower-limit phase it does the same for the lower limit. "
 "An alarm lasts until it is transitioned manually, whatever is observed meanwhile; only the documented transitions are possible, and a refused one changes nothing. "
 "After a reset the next observation starts a new baseline from that observation alone, and the old baseline has no influence any more.",
 ["histories", "inputs"], "all observation sequences and manual transitions at any point",
 "tests feed random series through the upper limit once and check the end state",
 [S+"estimator.go", S+"state.go"], [("life cycle", S+"estimator.go Record"), ("transitions", S+"state.go newMachine")], ["State, HasAlarmed, Transition"])
prop("C51", "Baseline, limits and current value are computed from the right observations",
 "The baseline mean and variance are those of exactly the last `capacity` (transformed) observations when the baseline completes, the limit is mean plus (upper) or minus (lower) k times the square root of lambda/(2-lambda) times the variance, and the current value starts at the mean. "
 "Each later tested observation moves the current value to lambda*observation + (1-lambda)*current; value and limit change at no other time. "
 "The default statistics use a baseline of 50, lambda 0.25 for EWMA and 1 for Shewhart.",
 ["histories", "inputs"], "all observation sequences, capacities, lambdas and k",
 "one fixed limit and the final alarm of random series are tested",
 [S+"estimator.go", S+"pdf.go", S+"poisson.go", S+"lognormal.go"], [("limit", S+"estimator.go calculateLimit"), ("EWMA", S+"estimator.go calculateCurrent"), ("moments", S+"pdf.go")], ["Value, Limit"])
prop("C52", "A test keeps its statistics in step and reports all of them",
 "Every valid observation is recorded once by every statistic of a test and an invalid one (for which the transform is undefined) is refused with an error by the statistics concerned and changes nothing in them; a manual transition is attempted on every statistic, and an error is returned exactly if at least one refused. "
 "The test has alarmed exactly if one of its statistics has, and the list of states has one entry per statistic in order. "
 "Metric returns exactly the current value and limit of every statistic under distinct names derived from the test's name without changing that name. A statistic without room for a baseline is not made, nor a test one of whose options refuses.",
 ["histories", "inputs", "configurations"], "all combinations of statistics, observation sequences and manual transitions",
 "tests use a single statistic at a time",
 [S+"stattest.go"], [("fan-out", S+"stattest.go Record, Transition"), ("metric", S+"stattest.go Metric")], ["Record, Transition, State, HasAlarmed, Metric"])
prop("C53", "The error rate determines the width of the limits, consistently",
 "An error rate that is a positive normal number gives a finite factor k for both distributions, any other rate (zero, negative, infinite, not a number) is refused with an error, and a fixed k is used as it is for both. "
 "A smaller error rate always gives a larger k, multiplying the rate by a given factor changes k by the same amount wherever on the scale that happens, and the rates of the calibration have the k of the calibration. "
 "A statistic made with a rate uses exactly that k for both of its limits, with the constants of its own distribution, and one whose rate is refused uses the fallback k = 5.7 of calculateLimit.",
 ["inputs", "configurations"], "all error rates over the range of normal floating point numbers, both distributions",
 "tests compute k for two rates",
 [S+"k.go", S+"kconst_gen.go", S+"estimator.go", S+"pdf.go"], [("factor", S+"k.go calculate"), ("constants", S+"kconst_gen.go")], ["CalculateLN, CalculateP, Limit of a statistic"])
prop("C54", "Random numbers come from the distribution of their generator",
 "Every number of a Poisson generator with a rate from 0 to 500 is a whole number that is not negative, 0 if the rate is 0, and over many draws their mean and variance are the rate; every number of a log normal generator is positive and the mean and standard deviation of their logarithms are the configured ones, with the share of values near the mean that a normal distribution has. "
 "What one generator returns does not depend on the parameters of another.",
 ["inputs", "histories"], "all rates, means and deviations, all numbers of draws, several generators used in turn",
 "one log normal generator is sampled, and no Poisson generator",
 ["pkg/rng/poisson.go", "pkg/rng/lognormal.go"], [("Knuth's algorithm", "pkg/rng/poisson.go Rand"), ("log normal", "pkg/rng/lognormal.go Rand")], ["Rand"])

if __name__ == "__main__":
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
