#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json (run: python3 tools/gen_manifest.py > MANIFEST.json)."""
import json

TS = "path-sensitive typestate dataflow over SSA"
TRUST = ("Trusts: go/types and go/ssa of the installed Go, the models of library calls in lint/step.go, and that code is reached only through "
         "calls the analysis resolves (no reflection or unsafe writes to the fields concerned).")

CLAIMS = {
 "C01": (TS, "Covers every path of Client.Run through inlined helpers, with loops abstracted to a fixpoint and a panic edge at every data-generator, Scan and database/sql call."),
 "C02": (TS, "Covers every path of Client.Run between two statement executions; loops to a fixpoint. That limiters emit at the configured rate is C16."),
 "C03": (TS, "Covers every path of Client.Run that starts an iteration; sharing of the counters is C14. Relies on sync/atomic being atomic."),
 "C04": (TS, "Covers every path of Client.Run between executions; the flags themselves are C34. Concurrent swapping of statistics is C26."),
 "C05": (TS, "Covers every path of Client.Run from a failed call to the next execution or exit."),
 "C06": (TS, "Covers every path of error handling for every combination of table flags; the contents of the table are configuration."),
 "C07": (TS, "Covers every path of Client.Connect and every path of Client.Run to it; a failing step must be returned."),
 "C08": (TS, "Covers every path of Client.Run around writes; counting inside the limits is C17."),
 "C09": ("Static analysis: interprocedural origin analysis of contexts and durations, and control-flow analysis of loops (every cycle passes an operation whose failure leaves the loop)", "Every call into database/sql and net/http, every sleep, select and loop of the packages that run a stage. Closing connections, statements and result sets and the goroutine of a rate limiter (waits at most one token) count as not blocking; channels other than of clients and stages, and polling loops of compute and stats: C24; nesting of contexts: C12; the interrupt itself: C43."),
 "C10": (TS, "Covers every path of Client.Run over result sets, row loops to a fixpoint."),
 "C11": (TS, "Covers every path of Stage.Run over groups and clients, loops to a fixpoint, goroutines of the stage included."),
 "C12": (TS, "Covers every path of Stage.Run and Client.Run that derives or passes a context, plus a scan of every package for lost cancel functions. That the clock is accurate is not decided."),
 "C13": (TS, "Covers every path of Stage.Run and the servers that start and stop the statistics collector."),
 "C14": ("path-sensitive dataflow over SSA (provenance of limiters)", "Covers every path of Allocator.Clients and Stage.Prepare that gives a client a limiter or counter; that a limiter keeps its rate is C16."),
 "C15": ("path-sensitive dataflow over SSA (provenance of assigned transactions)", "Covers every path of the allocator; file contents are C33."),
 "C16": (TS, "Covers every path of every function of package limit that touches the rate limiters, goroutines included; golang.org/x/time/rate itself is trusted."),
 "C17": (TS, "Covers every path of the data limits of package limit; what MySQL reports as sizes and affected rows is not decided."),
 "C18": (TS, "Covers every path of every request handler; interleavings are decided by requiring the check and the record in one critical section (C21 decides that all accesses are locked)."),
 "C19": (TS, "Covers every path of every request handler; effects are stores to shared state, sends and response bodies."),
 "C20": (TS, "Covers every path of Server.Run and the functions it inlines, loops to a fixpoint; a remote that reports falsely is out of reach."),
 "C21": ("interprocedural must/may lockset analysis over SSA", "Covers every field access, lock operation and blocking operation in compute and stats, helpers and goroutines included; locks are told apart by field, not instance."),
 "C22": (TS, "Covers every path of every request handler that reaches a file read and every path of the remote that creates a file; file contents are not decided."),
 "C23": (TS, "Covers every path of Client.Get and Client.Send; the number of tries is decided by an induction on the loop counter. What http.Client does with a request is trusted."),
 "C24": ("channel-counterpart and loop-exit analysis over SSA", "Covers every channel operation and every sleeping loop in compute, stats and proto; channels are told apart by field or make, not by instance. Blocking inside database and network calls is C09/C23."),
 "C25": (TS, "Covers every path of Stats.Reset, Copy, Combine and Record and of every function that combines instances; loops over event types, buckets and error codes are proved to visit all elements. Overflow of counters is not decided."),
 "C26": (TS + ", with an escape analysis of the borrowed statistics", "Covers every path of Trx.Swap, NewTrx and Collector.Collect and every use of the two sets and of what Swap returns. The data race of an event that loads the active set just before the switch is by design and not decided."),
 "C27": (TS, "Covers every path of Collector.Recv, Collect, Report and Stop, loops to a fixpoint; interleavings are covered through the collector's lock (C21). How long reporters take is not decided."),
 "C28": ("static analysis: def-use provenance over SSA across helpers, header/format agreement, and path-sensitive dataflow for the server reporter", "Decides what every printed column is computed from, for all values; number formatting and the approximation of percentiles are not decided (N01)."),
 "C29": (TS + " (provenance of setting values)", "Covers every path of Stage.Vars and config.Load for every string setting of the configuration types (found by reflection on the types); loops over lists and maps are proved to visit every element. The syntax of references is the regular expression in config.Vars, which is not itself decided."),
 "C30": (TS + " (provenance of setting values)", "Covers every path of Stage.With, CommandLine and Load for every setting of the base type; aliasing between stages is decided for maps and slices."),
 "C31": (TS + " (provenance of setting values)", "Covers every path of Stage.Validate and config.Load; the settings that need validation are those read as numbers or durations anywhere in the program, plus files, trx names and data scopes. Values of generator parameters are C39."),
 "C33": (TS + " plus dominance rules for bounds and unused columns", "Covers every path of File.Load and of the statement parser. Positions that are not constant are not decided; modifiers after the last statement and extra words of a modifier are accepted by Finch and not covered."),
 "C34": (TS + " with keyword tables compared set by set", "Covers every path of the statement parser that is reachable from File.Load; the keyword regular expressions and sets are evaluated as constants. What a database does with a statement is not considered."),
 "C35": (TS + ", loop and provenance matching for generated values", "Covers every path of the statement parser, the value loop and executions reachable from Client.Run, and Format and Values of every generator declared in the repository. Formats of @PREV are those of the generator of a key before it. A generator whose values come from the database (column) is accepted with any kind."),
 "C36": (TS + ", per-scope lockset analysis and escape rules", "The constructor of the scoped generator is evaluated for every scope constant and every exported method is analysed for each scope that spans clients; values returned by every generator declared in the repository are checked for aliasing. Generators registered by other programs are not seen."),
 "C37": (TS + ", evaluated per scope constant", "Values, Call, GreaterThan, Scope.Copy and Scope.Reset are decided for each of the scopes in finch.go; the counts are those of Client.Run. That Allocator.Clients visits run levels in ascending order is decided under C15."),
 "C38": (TS + "; terms of Make and Copy compared", "Every path of the built-in factory, per registered name, is composed with every path of Copy that can follow it. Parameters are symbolic. External generators are registered by users and not analysed."),
 "C39": (TS + " with linear inequalities (interval/difference facts)", "Every path of making each built-in generator is composed with every path of Values, Format and Scan. Additions are taken not to overflow in the range rule (the panic rule uses the checked term itself). Memory exhaustion by a huge string length is not decided, nor the range of int-gaps (floating point)."),
 "C40": (TS, "Every path of dbconn.Make to sql.Open, of TLS.Set, TLS.LoadTLS, ParseMyCnf and SetConfig. The DSN is compared as a sequence of string pieces. That my.cnf values do not overwrite explicit ones is C30's rule for MySQL.With. Patterns (RDS host names, port suffix) are evaluated on samples at analysis time; the TLS behaviour of the driver is trusted."),
 "C41": ("Static analysis: interprocedural, context-sensitive taint dataflow over SSA (fields by field, locals by cell), plus path-sensitive typestate analysis of the redacting functions", "All functions are analysed in every calling context that differs in which arguments are secret. Errors of the driver, database/sql, encoding/json and io are trusted not to repeat a DSN; go-arg's errors, which repeat arguments, are not sources. Params lists are excluded, as the statement says."),
 "C42": ("flow-sensitive error-discipline analysis over SSA (alias-tracking path search from every error result)", "Covers every call in every package that returns an error and every path from it on which the error may be non-nil; errors dropped on purpose are a closed list with a maximum per package. What is done with an error passed to another function, stored or sent is not followed further."),
 "C32": (TS + " plus whole-program forward value flow of settings", "Flow of every setting is may-flow through the whole program (fields stand for all their instances), which finds settings that no longer reach what they control; disabled stages, the local instance, collectors and reporters are decided path by path (must). That a setting's value is used correctly once there: C02, C03, C12, C14, C15, C27, C35, C37, C40. data.name and trx[].data.*.data-type: not in the code or not documented."),
 "C43": (TS + " plus structural error-flow analysis", "main, boot.Up, its interrupt goroutine and Server.Run path by path; error propagation in every function with an error result that start-up reaches through static calls (Client and API excepted: a remote tries again). That cancelled contexts stop the run is C09, C12 and C24."),
 "C44": (TS, "Covers every path of Client.Run and of its watch goroutine. That a ping reaches the server is the network's."),
}

NA = {
 "N01": "Quantifies over recorded values and histogram arithmetic at run time; no static argument in reach bounds the numeric error of every input.",
 "N02": "A statement about achieved rates over time depends on timers, scheduling and MySQL latency, which are runtime quantities.",
 "N03": "A statement about probability distributions of runtime random values; not decidable from the source by dataflow.",
 "N04": "Needs the SQL semantics of arbitrary user text and MySQL itself.",
 "N05": "Compares with what MySQL executed, including lost messages; the comparison exists only at run time.",
 "N06": "A performance statement about allocation and latency at run time.",
}

def main():
    ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
    checks = []
    for i in ids:
        if i not in CLAIMS:
            continue
        tech, note = CLAIMS[i]
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": "static analysis: " + tech, "level": "other",
                       "level_note": note + " " + TRUST})
    na = [{"property": i, "reason": NA.get(i, "No rule built (yet) that decides it soundly.")} for i in ids if i not in CLAIMS]
    print(json.dumps({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
      "notes": "All checks run lint/ (one Go program) on /repo's current source; nothing is executed. No hooks in /repo: its commits are fixes of genuine defects, listed in known-findings.txt."}, indent=1))

main()
