#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py > properties.jsonl)."""
import json

P = []

def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": " ".join(statement.split()),
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": " ".join(why.split()),
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "observe_at": list(observe),
            "hook_needed": None,
        },
    })

NOMYSQL = "Every test of this package needs a MySQL server and is skipped, so no input at all is sampled today; "

# ------------------------------------------------------------------ client
prop("C01", "Every started client reports completion exactly once, after cleaning up",
 """Once started, a client delivers exactly one completion report to its stage however it ends: limits reached,
 data limit, unrecoverable error, end of run time, or a panic inside data generation or the driver. Before that
 report its MySQL connection and all of its prepared statements have been closed, and a panic or an unrecoverable error is
 carried in the report as the client's error while end of run time is not reported as an error.""",
 ["schedules", "fault_sequences", "inputs"], "all exits of a client run, including a panic at any call",
 NOMYSQL + "and a missing or double report only shows on rare exits (panic, failed first connect), where the stage hangs or miscounts.",
 ["client/client.go"], [("deferred completion", "client.Client.Run defer")],
 [("DoneChan", "stage's completion channel", "client.Client"), ("ps/conn", "session resources", "client.Client")],
 ["send on Client.DoneChan"])

prop("C02", "No statement runs without the rate permits configured for it",
 """A client with a QPS limit takes exactly one QPS permit immediately before each statement it executes, and a client with a
 TPS limit takes exactly one TPS permit before each statement that begins a transaction; idle statements take none.
 A permit is never taken after the statement has been sent, nor skipped on any path, including retries after an error.""",
 ["histories", "configurations", "fault_sequences"], "all statement sequences, limiter combinations and error recoveries",
 NOMYSQL + "and a skipped permit is invisible unless rates are measured under a specific statement mix.",
 ["client/client.go"], [("permit receive", "client.Client.Run"), ("limiter channels", "workload.Allocator.Clients")],
 [("QPS/TPS", "permit channels, nil if unlimited", "client.Client")])

prop("C03", "Iteration limits are never exceeded, alone or shared",
 """A client with a per-client iteration limit N starts at most N iterations, and clients that share a client-group or
 execution-group iteration limit N start at most N iterations between them under every interleaving.
 Every configured limit is checked before each iteration starts, including after error recovery, and a limit ends a client only once that many iterations were started.""",
 ["schedules", "histories", "configurations"], "all interleavings of clients sharing a limit, all error recoveries",
 NOMYSQL + "and overshoot of a shared counter needs two clients racing on the last iteration.",
 ["client/client.go", "workload/workload.go"], [("atomic claim", "client.Client.Run ITER"), ("shared counter allocation", "workload.Allocator.Clients")],
 [("Iter*Ptr", "shared iteration counters", "client.Client")])

prop("C04", "Each executed statement is counted once, in its own class",
 """When statistics are enabled, each statement sent to MySQL is recorded exactly once, in the statistics of the trx file it belongs to, with its own response time (from just before
 it is sent until the call returns) under its class: read for a result set, write for a data change, commit for COMMIT, otherwise only total.
 A statement that fails while the run is still active also counts exactly one error under its MySQL error code; statements never sent
 (idle, stopped by a limit) are not counted, and clients with statistics disabled record nothing.""",
 ["histories", "inputs", "fault_sequences"], "all statement kinds, outcomes and cancellation points",
 NOMYSQL + "and misattribution does not change any functional output.",
 ["client/client.go", "stats/stats.go"], [("Record/Error calls", "client.Client.Run")],
 [("Stats[trxNo]", "per-trx stats, nil when disabled", "client.Client")])

prop("C05", "After a failed statement the iteration is abandoned and restarted clean",
 """When a statement fails, no later statement of the same iteration is executed and its outputs, insert id and row count are not used: the client
 either stops or, after error handling succeeded, starts a new iteration from the first statement.
 Every failure goes through error handling; the error handed to it is the statement's own error and the statement reported is the one that failed.""",
 ["fault_sequences", "histories"], "any statement failing with any error at any point",
 NOMYSQL + "and continuing after an error only matters when MySQL returns one mid-transaction.",
 ["client/client.go"], [("ERROR path", "client.Client.Run")])

prop("C06", "MySQL errors are handled as the error table says",
 """On a query error listed as continue-able the client keeps its connection and goes on; if the entry also asks for rollback and the client is inside a
 transaction, ROLLBACK is executed on that connection first, and a failing ROLLBACK stops the client. An error not in the table, or not
 marked continue, makes the client replace its connection; a DDL statement failing with an unlisted error stops the client.""",
 ["inputs", "fault_sequences"], "all MySQL error codes and all flags combinations in the table",
 NOMYSQL + "and each flag combination needs a server producing that error inside/outside a transaction.",
 ["client/client.go", "finch.go"], [("error dispatch", "client.Client.Connect"), ("error table", "finch.MySQLErrorHandling")])

prop("C07", "A reconnect restores the session before any statement uses it",
 """Whenever a client obtains a connection, first or replacement, the previous connection and the statements prepared on it are closed and forgotten, the new one is a
 new MySQL session and never a closed one taken from a pool, the configured default database is selected, and every statement configured as prepared is prepared again on the new connection, before the next statement executes.
 A failure in any of these steps is returned, never ignored.""",
 ["fault_sequences", "histories"], "all sequences of connection loss and recovery",
 NOMYSQL + "and a stale prepared statement or wrong default database needs a reconnect in the middle of a run.",
 ["client/client.go"], [("Connect", "client.Client.Connect"), ("pool", "dbconn.Make")], [("ps", "prepared statements by statement number", "client.Client")])

prop("C08", "Data limits stop writers and are fed by every successful write",
 """A statement with a data limit is executed only if the limit, asked immediately before, allows more; when it does not, the client stops.
 After each successful execution the number of affected rows is reported to the limit, and never after a failed one.""",
 ["histories", "schedules"], "all executions of limited statements by any number of clients",
 NOMYSQL + "and an unfed or unchecked limit only shows as an endless or overshooting load.",
 ["client/client.go", "limit/data.go"], [("Limit.More / Limit.Affected", "client.Client.Run")])

prop("C09", "Waiting never outlives the run: blocking calls are tied to a context",
 """Every MySQL call, HTTP request, sleep and wait made on behalf of a running stage is bounded by the context of that run (which an interrupt ends) or by a constant finite timeout. Loops that retry or repeat such calls
 notice on every round that the context has ended and then stop, so ending the stage or interrupting Finch ends them even when MySQL or the server never answers.""",
 ["schedules", "fault_sequences"], "cancellation at any point, peer never answering",
 "Tests always use peers that answer; an unbounded wait is only visible when the peer hangs and the run ends at that moment.",
 ["client/client.go", "limit/data.go", "stage/stage.go", "compute/client.go", "proto/proto.go", "stats/remote.go"],
 [("ctx arguments", "calls into database/sql and net/http"), ("loops", "client.Client.Connect and Run, proto.Client.request, compute.Server.Run")])

prop("C10", "Query results are read completely, saved correctly, and always released",
 """Every result set a client opens is closed on every path before the client executes anything else; every row is offered to the configured output
 columns in order, and an error while reading a row or at the end of the rows is treated as a statement error.
 A configured insert id is taken from the result of that same statement and saved once after each success, never after a failure.""",
 ["inputs", "fault_sequences"], "all result sets and all points where reading fails",
 NOMYSQL + "and a leaked result set or lost row error only shows when reading fails half-way.",
 ["client/client.go", "limit/data.go"], [("rows loop", "client.Client.Run"), ("SHOW FULL TABLES", "limit.Size.More")])

# ------------------------------------------------------------------ stage / workload
prop("C11", "Execution groups run strictly one after another",
 """No client of an execution group starts before every client started for the previous group has reported completion, unless the stage run time or Finch itself has ended;
 all clients of one group are started, each exactly once, before waiting begins. The wait for a group ends only when all of its clients reported or
 the run ended, and after the run ended it is bounded in time.""",
 ["schedules", "configurations"], "all numbers of groups and clients and all completion orders",
 NOMYSQL + "and overlap of groups requires a slow client in an earlier group.",
 ["stage/stage.go"], [("group loop", "stage.Stage.Run")], [("doneChan", "completion channel", "stage.Stage"), ("nClients", "clients not yet done", "stage.Stage.Run")])

prop("C12", "Run time limits nest: client group within stage within Finch",
 """Each client runs under a context that ends when its client group's run time, its stage's run time, or Finch itself ends, whichever is first;
 a group or stage without a configured run time inherits the enclosing limit unchanged. Every timer created for this is released.""",
 ["configurations", "schedules"], "all combinations of configured/absent run times",
 NOMYSQL + "and a detached context only shows when the outer limit fires first.",
 ["stage/stage.go", "workload/workload.go"], [("context hierarchy", "stage.Stage.Run")])

prop("C13", "Stage statistics bracket exactly the execution of the clients",
 """If statistics are enabled, collection starts once before the first client of the stage is started and stops once after the last group has been waited for, on every path out of the run,
 and every client's statistics are registered before the run begins; if disabled, nothing is collected. CPU profiling, if requested, brackets the same interval.""",
 ["schedules", "configurations"], "all paths through a stage run",
 NOMYSQL + "and a missed stop on an early exit loses the final report silently.",
 ["stage/stage.go"], [("Start/Stop/Watch", "stage.Stage.Run, stage.Stage.Prepare")])

prop("C14", "Configured limits reach exactly the clients they are configured for",
 """Stage rate limits are shared by all clients of the stage, execution-group limits by all clients of that group, 'clients' limits by all clients of that client group, and plain
 limits are private to each client; each client's effective limit combines all of them, QPS with QPS and TPS with TPS, and
 shared iteration counters are shared at the same levels.""",
 ["configurations"], "all combinations of the configured limits and workload shapes",
 "Allocation needs a MySQL connection handle in tests; only a few shapes without limits are sampled, and a limiter created at the wrong level yields plausible but wrong rates.",
 ["workload/workload.go", "stage/stage.go"], [("limiter composition", "workload.Allocator.Clients")])

prop("C15", "Clients execute the configured transactions, in order, correctly delimited",
 """Each client gets every statement of each transaction assigned to its client group, in configured order, with the data, default database, identity and
 completion channel belonging to it; the first statement of every transaction is marked as its beginning and the last as its end, and one statistics slot exists per assigned transaction.
 Each client group creates its configured number of clients, and a group containing DDL runs one iteration unless configured otherwise.""",
 ["configurations", "inputs"], "all trx assignments and workload shapes",
 "Tests compare a handful of allocations; off-by-one at transaction borders depends on statement counts and mixes.",
 ["workload/workload.go"], [("statement copy", "workload.Allocator.Clients"), ("grouping", "workload.Allocator.Groups")])

# ------------------------------------------------------------------ limit
prop("C16", "Rate limiters emit permits only at the configured rate and combine as AND",
 """A rate limiter emits a permit only after its underlying token source granted one, configured with the given per-second rate and burst 1; unread permits are dropped, not accumulated
 beyond one. A combined limiter emits a permit only after both parts granted one, and combining with an absent limiter yields the other one.""",
 ["schedules", "histories"], "all arrival orders of the two parts and all consumer speeds",
 "Tests (where present) sample one timing; a combined limiter that ORs its parts or accumulates permits looks right at low load.",
 ["limit/rate.go"], [("rate.run", "limit.rate"), ("and.run", "limit.and")])

prop("C17", "Data limits count exactly and combine as 'whichever first'",
 """A row limit allows more rows exactly while the rows counted so far, starting from the configured offset, are fewer than the maximum, under any number of concurrent clients.
 A size limit stops on any measurement error or when the measured size reaches the maximum; a combined limit allows more only while both parts do, and feeds both parts;
 an absent or zero limit means no limit and is never mistaken for a present one.""",
 ["schedules", "inputs", "fault_sequences"], "all interleavings of Affected/More and all combinations",
 "No test drives limits concurrently or through a typed-nil limit; size limits need MySQL.",
 ["limit/data.go", "trx/trx.go"], [("Rows/Size/or", "limit.Data implementations")])

# ------------------------------------------------------------------ compute / proto
prop("C18", "Stage hand-out to remotes is guarded: never too many, never after boot",
 """The server gives a stage's configuration only to instances that are not already assigned, only while the stage is still booting and not stopped, and to at most the configured number of remotes at any time, checked
 and recorded atomically. An instance whose boot failed gives its place back so another (or the same) instance can take it, and a place is not taken by an instance whose request has already ended.""",
 ["schedules", "fault_sequences", "histories"], "all interleavings of boot requests, failures and stage changes",
 "API tests send one request at a time; a slot taken twice or leaked needs concurrent or failing remotes.",
 ["compute/api.go"], [("boot", "compute.API.boot")], [("clients", "assigned remotes", "compute.stageMeta"), ("booted/done", "stage phase", "compute.stageMeta")])

prop("C19", "Remote requests are accepted only in protocol order",
 """For each remote the server accepts requests only in the order boot, files, boot acknowledgement, run, statistics, run acknowledgement; anything out of order is rejected without any effect on the stage.
 Every request is first checked for method, instance name, stage id, assignment to the current stage and matching stage id.
 A successful or failed acknowledgement advances the instance state as documented and is delivered to the server exactly once.""",
 ["histories", "inputs", "schedules"], "all request sequences from any remote",
 "API tests walk the one legal sequence and a few rejections; the illegal ones are unbounded.",
 ["compute/api.go"], [("state checks", "compute.API handlers"), ("gate", "compute.API.client")], [("state", "ready/booting/runnable/running", "compute.client")])

prop("C20", "Run is signalled only after every required instance booted",
 """The server signals remotes and starts the local instance only after the required number of instances acknowledged a successful boot (a failed boot does not count), signals each stage exactly once,
 never in test mode, and considers the stage finished only when every booted instance reported completion or Finch was interrupted and it stopped waiting.
 Stages run one after another in the configured order.""",
 ["schedules", "fault_sequences"], "all boot/run outcomes of N instances in any order",
 "The multi-instance tests run one remote that succeeds; partial boots and interrupts are not sampled.",
 ["compute/server.go"], [("boot loop / run loop", "compute.Server.run")])

prop("C21", "Shared server state is accessed only under its lock, without deadlock",
 """State shared between HTTP handlers, the server loop and statistics collection is read and written only while holding the lock that protects it; every lock taken is released on every path;
 locks are always taken in one global order; and no handler waits on the network, a channel or a sleep while holding one.""",
 ["schedules"], "all interleavings of handlers, server loop, reporter and client goroutines",
 "Races and lock-order inversions need interleavings that single-request tests never produce.",
 ["compute/api.go", "compute/server.go", "stats/collector.go", "stats/remote.go"],
 [("mutexes", "compute.API, compute.stageMeta, stats.Collector")])

prop("C22", "Remotes can fetch only the stage's own trx files",
 """The only files the server ever sends are the transaction files of the stage assigned to the requesting instance, selected by an index that has been checked against both bounds; nothing in a request can name a path.
 A remote stores fetched files only inside its private temporary directory, without one file overwriting another.""",
 ["inputs"], "all request parameters and all configured file names",
 "Tests request a valid index and a few bad ones; path control is a property of every input.",
 ["compute/api.go", "compute/client.go"], [("file", "compute.API.file"), ("getTrxFiles", "compute.Client.getTrxFiles")])

prop("C23", "Requests to the server are retried safely and bounded",
 """A request is attempted at most the given number of times (unlimited only when asked for), with its timeout on every attempt and no further attempt once the context ended; every attempt carries the complete payload.
 Success is reported only for status 200 (or 205 as reset), the returned body is read completely before the attempt's context is released, and the response body is closed.""",
 ["fault_sequences", "inputs"], "all sequences of failures before success",
 "Tests use a server that answers the first attempt, so retry behaviour is never exercised.",
 ["proto/proto.go"], [("request loop", "proto.Client.request")])

prop("C24", "No goroutine waits forever on a finished peer",
 """Every channel operation between stages, remotes and handlers either has a buffer large enough for all its senders, a guaranteed counterpart, or an alternative (timeout, cancellation, default), and every wait loop can
 reach its exit when its peer is gone: stopping a stage never waits for ever for its remotes, a handler never outlives its request, and an interrupt always ends the server's waits.""",
 ["schedules", "fault_sequences"], "all orders of stop, loss and completion",
 "Tests exit as soon as the happy path completed; a stuck handler or stop loop needs a lost peer.",
 ["compute/api.go", "compute/server.go", "compute/client.go", "stats/remote.go", "stats/collector.go"],
 [("Stage stop loop", "compute.API.Stage"), ("ack channels", "compute.stageMeta")])

# ------------------------------------------------------------------ stats
prop("C25", "Statistics merge and reset without losing or inventing data",
 """Resetting statistics clears every counter of every event type; copying makes the destination equal to the source including absence of values; combining adds every counter and keeps the smaller minimum and larger maximum of
 the non-empty sides. An empty side never changes a minimum. Each collection combines what every watched client recorded, exactly once, into an emptied total and into the emptied statistics of its trx.""",
 ["inputs", "histories"], "all pairs of statistics values",
 "Tests combine two or three non-empty samples; empty sides and error maps are not sampled.",
 ["stats/stats.go", "stats/collector.go"], [("Reset/Copy/Combine/Record", "stats.Stats")])

prop("C26", "A client never writes the statistics being reported",
 """Statistics taken for reporting are the ones the client has just been switched away from; the set the client is switched to is emptied before it becomes active, and sets alternate, so that
 no event is lost or counted in two intervals by the switch itself. Switching is atomic with respect to the recording client.""",
 ["schedules"], "all interleavings of recording and collecting",
 "The switch is tested single-threaded, twice.",
 ["stats/stats.go", "stats/collector.go"], [("Swap", "stats.Trx.Swap")], [("sp", "active set", "stats.Trx")])

prop("C27", "Each interval is reported once, complete or explicitly forced",
 """An interval is given to every reporter exactly once, in order, when statistics of all instances for that same interval have arrived, or when forced; late statistics are dropped, early ones force the
 current interval out first, and statistics of different intervals are never mixed. Stopping collects a final interval if needed, forces an incomplete one after the timeout, and stops every reporter exactly once.
 The duration of an interval is the time since the previous collection and its run time the time since the start.""",
 ["schedules", "histories", "fault_sequences"], "all arrival orders of N instances' statistics",
 "Tests feed intervals in order with one missing sample.",
 ["stats/collector.go"], [("Collect/Recv/Report/Stop", "stats.Collector")], [("interval,n,intervalNo", "interval being filled", "stats.Collector")])

prop("C28", "Report columns carry the values their headers name",
 """For every reporter, the columns of a printed line are as many as, and in the same order as, its header: interval, duration, run time, clients, then for total, read, write and commit the rate, minimum, percentiles and maximum
 of that same event type, then errors and compute. When several instances are combined, the number of clients is the sum over all of them.
 Standard output has a line for every instance and one for all combined as configured, and with a single instance not printed by itself its combined line. A slow or lost server never blocks collection.""",
 ["inputs", "configurations"], "all statistics values and percentile lists",
 "CSV is compared for one fixed sample whose values do not distinguish all columns; stdout is not compared.",
 ["stats/reporter.go", "stats/stdout.go", "stats/csv.go", "stats/remote.go"], [("format/args", "Stdout.print, CSV.Report, Server.Report")])

# ------------------------------------------------------------------ config
prop("C29", "Parameters are substituted in every configuration value",
 """$params, $sys and environment references are interpolated in every string value of a stage file wherever it occurs (except the names of parameters themselves), numeric settings also accept human-readable numbers, and an undefined reference is an error naming it.
 Substitution finishes before the value is validated or used.""",
 ["configurations", "inputs"], "all string settings of the stage file",
 "Tests substitute in a few fields; a forgotten field stays literal and fails or, worse, silently means 0.",
 ["config/config.go", "config/file.go"], [("Vars methods", "config.*.Vars")])

prop("C30", "Configuration precedence: command line over stage file over base file",
 """A value set in the stage file is never replaced by the base file; a value not set there is taken from the base file, for every setting the base file can hold; --param, --dsn and
 --database override both. One stage's configuration never changes another's.""",
 ["configurations"], "all settings, set or unset at each level",
 "Two sample bases are tested; each field and level is a separate case.",
 ["config/config.go", "config/file.go"], [("With / CommandLine", "config.Stage.With, config.MySQL.With, config.TLS.With, config.Stage.CommandLine")])

prop("C31", "Every setting is validated before anything relies on it",
 """Unless the stage is disabled, every integer, duration and file setting, every trx a client group refers to and every data generator and scope of a stage is validated when the stage file is loaded; an invalid integer or duration is an error naming the setting,
 and code that later treats a value as already validated only ever sees values that passed; unknown keys in stage or base files are rejected.""",
 ["configurations", "inputs"], "all settings and all ill-formed values",
 "Tests load valid files; each setting has unboundedly many invalid values.",
 ["config/config.go", "config/file.go", "workload/workload.go", "stage/stage.go"], [("Validate methods", "config.*.Validate"), ("consumers", "finch.Uint, time.ParseDuration with ignored error")])

prop("C32", "Every setting has an effect; a disabled stage does not run",
 """The value of every documented stage-file setting reaches the code that does what it controls (rate limits the limiters, run times the deadlines, params the substitution in trx files, data params and scope the generator, stats.freq the collection timer, and so on);
 none is parsed and then ignored. Every configured report is made with its own options or the stage fails; statistics are collected in the server and in a remote if and only if stats.disable is not true; the local instance takes part if and only if compute.disable-local is not true.
 Every command-line option likewise reaches what it controls; with --test, remotes that wait for the signal to run are woken.
 A disabled stage is accepted without being validated, never started, and does not keep the stages after it from running.""",
 ["configurations"], "all settings",
 "A setting that is parsed but never read passes any test that does not look for its effect.",
 ["config/file.go", "compute/server.go", "compute/client.go", "stage/stage.go", "stats/reporter.go", "dbconn/factory.go"], [("field uses", "all packages"), ("stages", "compute.Server.Run"), ("validation", "config.Stage.Validate"), ("reports", "stats.MakeReporters")])

# ------------------------------------------------------------------ trx
prop("C33", "Trx files parse totally: bad input is an error, never a crash or silent skip",
 """Loading any trx file either yields all of its statements or an error: a malformed or unknown modifier, missing argument, undefined data key, unused saved column, read error or empty file
 is reported, no line of a statement or modifier of a statement is silently ignored, a modifier with too few words cannot crash the process, and the last statement needs no trailing blank line.""",
 ["inputs"], "all trx files",
 "Tests parse about a dozen well-formed files.",
 ["trx/trx.go"], [("File.Load/line/statements/column", "trx.File")])

prop("C34", "Statements are classified by their first keyword",
 """The first keyword, case-insensitively, decides how a statement is treated: SELECT returns rows; BEGIN and START begin a transaction; COMMIT commits; INSERT, UPDATE, DELETE and REPLACE write; ALTER, CREATE, DROP, RENAME and TRUNCATE are DDL,
 which also marks the whole trx as DDL. Every copy of a statement is classified like the original, the copies are numbered from 1, and a statement is repeated exactly as often as asked.""",
 ["inputs"], "all statements and modifiers combinations",
 "Tests use a few keywords; a missing keyword changes result handling, limits and grouping silently.",
 ["trx/trx.go"], [("keyword switch", "trx.File.statements"), ("copies", "trx.File.statements")])

prop("C35", "Data key substitution is deterministic and matches the generated values",
 """The inputs of a statement are the data keys in its text, in order of appearance, and each is replaced as a whole, independently of other keys, of map order and of shared name prefixes, by a placeholder if the statement is prepared, or else by the format of its generator; an input is called explicitly exactly if it is written with ().
 The number and kind of values of each generator match its format, and each execution of a statement uses the values freshly generated for that statement, input by input in order.""",
 ["inputs", "programs"], "all statements and key names",
 "Go randomises map order per run, so a prefix clash fails rarely; tests use distinct names.",
 ["trx/trx.go", "config/config.go", "data/*.go", "client/client.go"], [("replacements", "trx.File.statements"), ("Format/Values", "data.Generator implementations")])

# ------------------------------------------------------------------ data
prop("C36", "Data generators shared by clients are safe and values consistent",
 """A data generator whose scope spans several clients produces correct values under concurrent use, and each client sees the values it generated for the duration of its own iteration, whichever client group it is in.
 Returned values are never overwritten by a later call from another client.""",
 ["schedules", "configurations"], "all shared scopes and interleavings of clients",
 "Scope tests are single-threaded with one client group.",
 ["data/scope.go", "data/integer.go", "data/string.go", "data/column.go", "data/id.go"], [("ScopedGenerator", "data.ScopedGenerator.Call/Values")])

prop("C37", "A data value changes exactly when its scope says",
 """A data key yields a new value exactly when the execution unit named by its scope changes (statement, trx, iteration, client), on each use for value scope and explicit calls, once per client and iteration for client-group, exec-group and workload scope, and only once for stage
 and global scope; between changes it yields the same value, and explicit calls change it for what follows. Between stages, only stage- and global-scoped keys are kept.""",
 ["histories", "configurations"], "all scopes and run-count histories",
 "Tests sample some scopes with short histories; one-time scopes are not tested at all.",
 ["data/scope.go", "finch.go", "workload/workload.go"], [("scope decision", "data.ScopedGenerator.Values"), ("copying", "data.Scope.Copy, finch.RunLevel.GreaterThan"), ("Reset", "data.Scope.Reset")])

prop("C38", "Copies of a generator behave like the original, independently",
 """Copying a data generator gives a new generator with all of its configuration and shares no mutable state with the original. Every registered generator name can be made, as a generator of that name given its parameters;
 every name that can be made is registered; any other name is an error.""",
 ["programs", "configurations"], "all generators and their parameters",
 "Tests copy two generators; a parameter lost in a copy only shows for non-default values.",
 ["data/*.go"], [("Copy methods", "data.Generator implementations"), ("registry/factory", "data.Register, data.factory.Make")])

prop("C39", "Generator parameters cannot crash or corrupt a run",
 """Generator parameters are validated when the generator is made: no accepted combination makes value generation panic or gives no value, integers are within the configured range (in order if there are two) and counters advance,
 a numeric parameter that is not a number gives an error naming it, and a parameter that takes certain words accepts no others.""",
 ["inputs", "configurations"], "all parameter values accepted by each generator (range: up to 64-bit overflow; int-gaps: no panic, its floating-point range is not decided)",
 "Tests use sensible parameters; the panic needs a boundary value like zero or a reversed range.",
 ["data/integer.go", "data/string.go", "data/id.go"], [("constructors", "data.New*"), ("random source bounds", "data.*.Values")])

# ------------------------------------------------------------------ dbconn
prop("C40", "The DSN is built from the right source, with TLS when asked for",
 """An explicit DSN is used as is; otherwise socket wins over host name, my.cnf values only fill in settings not set explicitly, a password file wins over a password, and defaults apply only when nothing is configured.
 Configured TLS files are loaded and used, for the host name without port, unless TLS is disabled in the configuration or by ssl-mode in my.cnf; Amazon RDS hosts get the RDS CA unless disabled or TLS is configured, and certificate verification is disabled only when explicitly configured or for sockets without a host name.""",
 ["configurations"], "all combinations of connection settings",
 "dbconn tests need MySQL or sample single DSNs; each combination is a case.",
 ["dbconn/factory.go", "dbconn/mycnf.go", "config/file.go", "aws/rds.go"], [("Make", "dbconn.Make"), ("LoadTLS", "config.TLS.LoadTLS")])

prop("C41", "Passwords never reach logs, messages or errors in clear text",
 """No log line, printed message, returned error or debug output contains the MySQL password or an unredacted DSN, whether it comes from a stage or base file, the command line or environment, a password file, my.cnf
 or a server. Substituting params and environment variables does not print their values. (The list of user-defined params itself, given on the command line or in a file, is debug output.)""",
 ["inputs", "configurations", "fault_sequences"], "all output statements and all ways to configure a password",
 "Output is not inspected by any test.",
 ["dbconn/factory.go", "dbconn/mycnf.go", "config/*.go", "boot/*.go", "stage/stage.go", "compute/*.go"], [("RedactedDSN, Redacted", "dbconn, config.MySQL")])

# ------------------------------------------------------------------ cross-cutting
prop("C42", "Errors are never silently dropped",
 """Wherever an operation returns an error, a failure is returned to the caller, passed on, logged or answered as an error before the error is overwritten or the function returns, also when only debug output mentions it; the few errors dropped on purpose
 (closing things, writing to stdout, values validated before, retried calls) are a closed list, counted per package.""",
 ["fault_sequences", "inputs"], "all failing operations",
 "Tests inject no faults.",
 ["**/*.go"], [("error results", "all call sites")])

prop("C43", "Failures give a non-zero exit; interruption ends the process",
 """Any error in loading configuration, preparing a stage (connection, trx files, generators, clients) or serving remotes ends Finch with a message and non-zero exit status (failing statements are statistics, a failed remote
 is logged); the first interrupt cancels the run and Finch terminates within a fixed time even if a component does not react; --help and --version do nothing else; --test boots but never runs stages or tells remotes to.""",
 ["configurations", "fault_sequences", "schedules"], "all start-up failures and interrupt times",
 "boot tests are skipped without MySQL and never check the exit status.",
 ["boot/boot.go", "bin/finch/main.go", "compute/server.go"], [("Up", "boot.Up")])

prop("C44", "A remote instance stops with its server and always says when it is done",
 """A remote runs a stage only after boot acknowledgement and run signal, stops when the server ends the stage or cannot be reached, and after running always tries to tell the server that it is done, even when it was interrupted;
 whatever makes its boot fail after it was given a stage is reported to the server as a failure; its temporary files are removed and its background checks stopped on every path.""",
 ["schedules", "fault_sequences"], "all server replies, losses and interrupts",
 "Remote tests use a server that answers everything.",
 ["compute/client.go"], [("run", "compute.Client.run")])

# ------------------------------------------------------------------ not claimed
prop("N01", "Percentiles are within one histogram bucket of the true value",
 """Every reported percentile lies within one histogram bucket (4.7%) of the exact percentile of the recorded response times.""",
 ["inputs"], "all multisets of response times",
 "Tests compare a few fixed samples.", ["stats/stats.go"], [("Percentiles", "stats.Stats.Percentiles")])
prop("N02", "Achieved rates equal configured rates over time",
 """Over a long run the executed QPS and TPS equal the configured limits within a small tolerance whenever MySQL is fast enough.""",
 ["schedules", "histories"], "all loads", "Timing.", ["limit/rate.go"], [("rate", "limit.rate")])
prop("N03", "Random generators follow their configured distribution and range",
 """Integer generators are uniform or normal over the configured range, gaps have the configured density, and strings are uniformly random letters.""",
 ["inputs"], "all parameters", "Tests sample few values.", ["data/integer.go", "data/string.go"], [("Values", "data generators")])
prop("N04", "Generated SQL is valid and means what the trx file says",
 """Every statement sent to MySQL after substitution is syntactically valid and has the semantics of the trx file.""",
 ["inputs"], "all trx files", "MySQL decides.", ["trx/trx.go", "client/client.go"], [("Query", "trx.Statement")])
prop("N05", "Statistics equal what MySQL executed",
 """The totals reported at the end of a run equal the number of statements MySQL executed for that run, across all instances, even when instances are lost.""",
 ["histories", "fault_sequences"], "all distributed histories", "Needs a history.", ["stats/collector.go", "compute/api.go"], [("Recv", "stats.Collector.Recv")])
prop("N06", "Configured memory and latency overhead is negligible",
 """The client loop adds no allocation or latency large enough to distort measured response times.""",
 ["histories"], "all workloads", "Timing.", ["client/client.go"], [("loop", "client.Client.Run")])

for p in P:
    print(json.dumps(p))
