prop("C01", "Registry commands are deterministic",
     "For a given registry, policies and options, resolving, checking, packaging, diffing, computing statistics and updating markdown files give the same exit code, the same output "
     "bytes and the same diagnostics on every run. Thread scheduling, CPU count, directory listing order, hash seeds, short reads and interrupted calls never show in the result.",
     ["schedules", "inputs", "configurations"], "every registry (v1 and v2, with dependencies, imports, invalid definitions), every command and output format, every thread schedule, directory order and hash seed",
     "The tests run each input once, on one machine's directory order and whatever schedule rayon happens to take; they compare one sample of an output that is a function of input and schedule.",
     ["crates/weaver_resolver/src/loader.rs", "crates/weaver_resolver/src/registry.rs", "crates/weaver_resolver/src/lib.rs", "crates/weaver_semconv/src/group.rs",
      "crates/weaver_resolved_schema/src/lib.rs", "crates/weaver_version/src/schema_changes.rs", "crates/weaver_checker/src/lib.rs", "src/weaver.rs"],
     [("sorted directory walk, indexed parallel collect", "crates/weaver_resolver/src/loader.rs"), ("ordered maps and final sorts", "crates/weaver_resolver/src/registry.rs"),
      ("ordered statistics and change lists", "crates/weaver_resolved_schema/src/lib.rs")],
     "exploration", "Differential: each seeded registry and command is executed under one calm and several adversarial schedules; all observable results must be identical.",
     observe=["exit code", "stdout", "stderr diagnostics", "output files"])

prop("C02", "Generated artifacts do not depend on the schedule and are complete",
     "Generating artifacts from a registry and templates produces the same set of files with the same contents on every run, whatever the number of CPUs, the schedule of the "
     "parallel template evaluation and the directory order of the templates; the same holds for what templates print to standard output and for the messages. When a template is applied to each "
     "item, there is exactly one complete file per item, and a file that several evaluations write has the contents of one of them, always the same one. What a template produces does not depend on which other templates are configured.",
     ["schedules", "inputs", "configurations"], "every registry and template set (single and each mode, filters, computed file names, failing templates), every schedule of the parallel evaluation",
     "Template evaluation is parallel over files and over items; the tests sample one schedule per template set and cannot show that no shared template state leaks between items.",
     ["crates/weaver_forge/src/lib.rs", "crates/weaver_forge/src/file_loader.rs", "crates/weaver_forge/src/extensions/case.rs", "src/registry/generate.rs"],
     [("parallel evaluation with per-evaluation template state", "crates/weaver_forge/src/lib.rs generate/process_*_mode/evaluate_template"), ("error collection over parallel evaluations", "crates/weaver_forge/src/lib.rs")],
     "exploration", "Differential between schedules plus an item-count oracle for each-mode output.", observe=["output directory", "exit code"])

prop("C03", "An unreadable input is an error, never a silently different result",
     "When an input (registry file, manifest, dependency, archive, template, template configuration, policy, markdown file, sample file, project configuration) cannot be read, the command either "
     "fails with a non-zero exit code and a diagnostic, or produces exactly the result it produces without the fault. It never succeeds with a result computed from part of its inputs, never hangs and never crashes.",
     ["fault_sequences", "inputs", "schedules"], "every command, every input, every read-side operation at which the operating system can report an error",
     "The tests only use readable inputs, plus a few missing files; no test injects an error in the middle of a directory walk or a read.",
     ["crates/weaver_resolver/src/loader.rs", "crates/weaver_forge/src/file_loader.rs", "crates/weaver_forge/src/config.rs", "crates/weaver_checker/src/lib.rs", "crates/weaver_common/src/vdir.rs",
      "crates/weaver_config/src/lib.rs", "crates/weaver_semconv/src/semconv.rs", "crates/weaver_live_check/src/json_file_ingester.rs", "src/registry/update_markdown.rs"],
     [("error propagation from directory walks and file reads", "crates/weaver_resolver/src/loader.rs, crates/weaver_forge/src/file_loader.rs, crates/weaver_checker/src/lib.rs"),
      ("fatal/non-fatal result type", "crates/weaver_common/src/result.rs")],
     "fault_enumeration", "Faults are aimed at operations a fault-free run really performed; the fault-free run is the oracle.", observe=["exit code", "diagnostics", "output files"])

prop("C04", "Exit code 0 means every output was written completely",
     "When a command exits with code 0, every file it was asked to write exists with its complete contents and everything it printed reached standard output, whatever errors, short writes or "
     "full disks occurred. A partial write that is not an error never changes the result.",
     ["fault_sequences", "inputs"], "every command that writes files or standard output, every write-side operation, transient and persistent errors",
     "The tests write to healthy disks only.",
     ["src/registry/package.rs", "src/main.rs", "crates/weaver_forge/src/lib.rs", "crates/weaver_forge/src/output_processor.rs", "src/diagnostic/init.rs", "crates/weaver_semconv_gen/src/lib.rs", "src/registry/json_schema.rs"],
     [("write error propagation, explicit flush of buffered writers", "src/registry/package.rs write_yaml, src/main.rs generate_completion, crates/weaver_forge/src/output_processor.rs")],
     "fault_enumeration", "Write-side faults aimed at operations of the fault-free run, which is also the oracle.", observe=["exit code", "output files", "stdout"])

prop("C05", "A killed command can simply be run again",
     "After a command is killed at any point, running it again in the same folders gives the files, output and exit code of a run that was never disturbed. The kill itself never changes an input file.",
     ["crash_points", "inputs", "schedules"], "every writing command, every file-system operation as kill point (before, after, in the middle of a write), up to two kills in a row",
     "No test kills the process.",
     ["crates/weaver_forge/src/lib.rs", "crates/weaver_common/src/vdir.rs", "src/registry/package.rs", "crates/weaver_semconv_gen/src/lib.rs", "src/diagnostic/init.rs"],
     [("outputs rewritten from scratch", "crates/weaver_forge/src/lib.rs"), ("uniquely named temporary folders", "crates/weaver_common/src/vdir.rs create_tmp_repo"), ("replacement of markdown files by rename", "crates/weaver_semconv_gen/src/lib.rs")],
     "fault_enumeration", "Kill points aimed at operations of the fault-free run; the re-run is compared with it.", observe=["files after kill", "files after re-run", "exit code"])

prop("C06", "Updating markdown never damages hand-written text",
     "Updating markdown files changes only the contents of managed sections: text outside them, files with an unknown or unterminated section and files that are not markdown stay as they were, after every "
     "run, failed run or kill. Each file is at all times either its old or its complete new version. A dry run never writes, and it succeeds exactly when an update of the same folder would succeed and change nothing (line ends aside); right after an update it therefore succeeds.",
     ["crash_points", "fault_sequences", "inputs", "histories"], "every markdown tree and registry, every history of runs with kills and disk errors",
     "The tests update a handful of well-formed files on a healthy disk without interruption.",
     ["crates/weaver_semconv_gen/src/lib.rs", "crates/weaver_semconv_gen/src/parser.rs", "src/registry/update_markdown.rs"],
     [("section scanner", "crates/weaver_semconv_gen/src/lib.rs update_markdown_contents"), ("replacement by rename", "crates/weaver_semconv_gen/src/lib.rs replace_file"), ("dry run", "src/registry/update_markdown.rs")],
     "fault_enumeration", "An independent model of the section syntax decides which lines are hand-written; every run of a fault history is compared with it.", observe=["markdown files after every run"])

prop("C07", "Acknowledged telemetry is in the live-check report exactly once",
     "Every trace, metric, log and profile of an OTLP export request that the receiver acknowledged before the stop appears in the live-check report exactly once, with its name, kind and "
     "attribute names and values intact and in the order sent by its client. A request that was never completed leaves no trace in the report. This holds for any number of clients, message sizes, split "
     "and delayed packets, aborted streams, lost connections, retries on a new connection and every stop trigger.",
     ["histories", "schedules", "fault_sequences", "inputs"], "every history of export requests of concurrent clients, every network delay, split, reset and partition, every thread schedule and every moment of the stop",
     "The tests send a handful of requests from one well-behaved client over the loopback and count them.",
     ["src/registry/otlp/mod.rs", "src/registry/otlp/otlp_ingester.rs", "src/registry/otlp/conversion.rs", "src/registry/live_check.rs", "crates/weaver_live_check/src/lib.rs"],
     [("bounded channel with back-pressure between receiver and checker", "src/registry/otlp/mod.rs forward_to_channel"), ("request to sample conversion", "src/registry/otlp/otlp_ingester.rs, conversion.rs"),
      ("report and streaming output", "src/registry/live_check.rs")],
     "exploration", "Scripted gRPC clients speak real HTTP/2 to the real receiver; the recorded history of sends and acknowledgements and an independent model of each request decide what the report must contain.",
     observe=["acknowledgements received by clients", "live-check report"])

prop("C08", "Findings and statistics belong to the telemetry that caused them",
     "In a live-check report every span, metric, log and profile is judged in the context of the resource and instrumentation scope it was sent with, never of another request; the same telemetry gets the same "
     "findings whatever else is received before, after or at the same time. The statistics equal what the listed samples contain, and the exit code follows from them and the configured threshold.",
     ["histories", "schedules", "inputs"], "every interleaving of requests of several clients with equal and different resources and scopes, every threshold and output mode",
     "The tests check one request at a time, so state that leaks from one request or sample to the next stays invisible.",
     ["src/registry/live_check.rs", "src/registry/otlp/otlp_ingester.rs", "crates/weaver_live_check/src/live_checker.rs", "crates/weaver_live_check/src/advice.rs", "crates/weaver_live_check/src/stats.rs", "crates/weaver_live_check/src/finding_modifier.rs"],
     [("per-request resource and scope", "src/registry/otlp/otlp_ingester.rs"), ("statistics accumulation", "crates/weaver_live_check/src/stats.rs"), ("exit code", "src/registry/live_check.rs")],
     "exploration", "A custom policy prints the resource and scope each sample is judged with; the same request sent alone is the oracle for its findings; the statistics are recomputed from the samples.",
     observe=["live-check report", "statistics", "exit code"])

prop("C09", "Every way of stopping the OTLP receiver ends it promptly with its report",
     "After SIGINT, SIGHUP or POST /stop reaches the OTLP receiver of live-check or infer, the process ends by itself within ten seconds with its complete report (or inferred registry) and the exit code "
     "that belongs to it, whatever the connected clients do: idle, stalled, half-open, sending garbage, never reading, or sending at full speed; several triggers at once and failing accepts change nothing. "
     "A receiver that cannot open one of its ports fails with a non-zero exit code and a message.",
     ["histories", "schedules", "fault_sequences"], "every mix and moment of stop triggers, every client behaviour, full queues, accept and bind errors",
     "The tests stop an idle receiver once; liveness under stalled peers, full queues and racing triggers needs control over peers, time and schedule.",
     ["src/registry/otlp/mod.rs", "src/registry/live_check.rs", "src/registry/infer.rs", "src/registry/otlp/otlp_ingester.rs"],
     [("stop signal handlers", "src/registry/otlp/mod.rs spawn_stop_signal_handlers"), ("admin handler", "src/registry/otlp/mod.rs stop_handler"), ("request iterator", "src/registry/otlp/otlp_ingester.rs")],
     "exploration", "Liveness as a bound of ten simulated seconds after the first accepted trigger, in a simulator where a deadlock is detected exactly.",
     observe=["process exit", "live-check report", "inferred registry", "exit code"])

prop("C10", "The inactivity timeout stops an idle receiver and only an idle one",
     "With an inactivity timeout of T seconds the receiver does not stop by itself while export requests keep arriving less than T seconds apart, it stops on its own within 2T seconds (and not before T) after the last one, and with "
     "a timeout of 0 it never does. Jumps of the wall clock, connections without requests and health requests change nothing, and the report is complete.",
     ["schedules", "histories", "fault_sequences"], "every spacing of requests around the timeout, every timeout value, forward and backward clock jumps, idle connections",
     "The test waits one real second once; spacing around the limit, long timeouts and clock jumps cannot be tested in real time.",
     ["src/registry/otlp/mod.rs", "src/registry/live_check.rs", "src/registry/infer.rs"],
     [("inactivity monitor", "src/registry/otlp/mod.rs spawn_inactivity_monitor"), ("activity timestamps", "src/registry/otlp/mod.rs export handlers")],
     "exploration", "Simulated time: arrival and exit times are exact, hours cost milliseconds.", observe=["process exit time", "live-check report"])

prop("C11", "POST /stop delivers the whole report to every client that waits for it",
     "With --output http, every client whose POST /stop reaches the running receiver and that waits for the answer gets status 200 with the complete report of the session, the same for all of them; when no "
     "client is left to receive it, or the receiver was stopped by a signal, the report goes to standard output. Without --output http the answer is immediate. GET /health answers while the receiver runs. Slow, vanishing, half-closed, "
     "concurrent and malformed admin clients never block the end of the process for more than the delivery limits (60 seconds until the report is available, 120 seconds until the connections are drained).",
     ["histories", "schedules", "fault_sequences"], "every set of concurrent admin clients and their disconnects, stalls and slow reads, every moment of the request including right after the port opens",
     "The tests send one /stop from one client that reads its answer.",
     ["src/registry/otlp/mod.rs", "src/registry/live_check.rs", "src/registry/otlp/otlp_ingester.rs"],
     [("shutdown coordinator", "src/registry/otlp/mod.rs ShutdownCoordinator"), ("drain limit", "src/registry/otlp/mod.rs spawn_http_admin_handler"), ("report delivery", "src/registry/live_check.rs")],
     "exploration", "Scripted admin clients; the answers they received, standard output and the exit time are compared with the session's report model.",
     observe=["HTTP answers", "stdout", "process exit time"])

prop("C12", "Exit code 0 of emit means the collector accepted every signal",
     "When `registry emit` exits with code 0, the OTLP collector has accepted exactly one span, one data point or one log record for each span, metric and event of the resolved registry, with its name, kind and "
     "attribute keys, and nothing else. When the collector accepts everything in time the exit code is 0. Whatever the collector and the network do (refuse, reject, reset, stall, delay, partition), the command ends by itself.",
     ["fault_sequences", "inputs", "schedules"], "every registry, from none to thousands of signals, every behaviour of the collector and the network, every schedule of the batch exporters",
     "The tests emit a few signals to the in-process standard output exporter; no test has a collector that fails, or more signals than the exporter's queue holds.",
     ["crates/weaver_emit/src/lib.rs", "crates/weaver_emit/src/spans.rs", "crates/weaver_emit/src/metrics.rs", "crates/weaver_emit/src/logs.rs", "src/registry/emit.rs"],
     [("count of accepted spans and log records", "crates/weaver_emit/src/lib.rs"), ("provider flush and shutdown", "crates/weaver_emit/src/lib.rs emit")],
     "fault_enumeration", "A scripted HTTP/2 collector records what it accepted; an independent model derives from `registry resolve` what has to arrive.", observe=["exit code", "export requests accepted by the collector"])

prop("C13", "Emitted findings are the findings of the report, or live-check fails",
     "When `registry live-check --emit-otlp-logs` exits with code 0, the collector has accepted exactly one log record for each finding of the report, with its id, level, message, signal, context and resource, after "
     "the configured filters and overrides. When the collector accepts everything in time the exit code is the one without emission. Whatever the collector and the network do, the command ends by itself.",
     ["fault_sequences", "histories", "schedules", "inputs"], "every session or sample file, every behaviour of the collector and the network, every number of findings, every schedule of the batch exporter",
     "The tests emit to no collector at all; a lost log record is invisible without comparing the collector with the report.",
     ["crates/weaver_live_check/src/otlp_logger.rs", "crates/weaver_live_check/src/live_checker.rs", "crates/weaver_live_check/src/finding_modifier.rs", "src/registry/live_check.rs"],
     [("count of accepted findings", "crates/weaver_live_check/src/otlp_logger.rs"), ("filters and overrides on the emission path", "crates/weaver_live_check/src/otlp_logger.rs emit_finding")],
     "fault_enumeration", "A scripted HTTP/2 collector records what it accepted, which is compared with the report of the same run.", observe=["exit code", "log records accepted by the collector", "live-check report"])

prop("C14", "The inferred registry says exactly what the received telemetry implies",
     "`registry infer` writes a registry that defines every resource attribute, span, metric, event and attribute of every acknowledged export request, and nothing that nobody sent, each once, with kind, instrument and "
     "unit of a received signal, a type implied by received values, and at most five distinct examples that were received. The same telemetry in the same order gives the same bytes, whatever the schedule and the hash "
     "seeds. The registry can be resolved again. When it cannot be written, the exit code is not 0.",
     ["histories", "schedules", "inputs", "fault_sequences"], "every interleaving of requests of several clients, every stop trigger, signals that share attributes with conflicting types, every write error",
     "The tests infer from a few samples in one process; which of several conflicting definitions wins is decided by hash seeds and interleavings they do not control.",
     ["crates/weaver_infer/src/lib.rs", "src/registry/infer.rs", "src/registry/otlp/otlp_ingester.rs", "src/registry/otlp/conversion.rs", "src/registry/otlp/mod.rs"],
     [("accumulation of samples", "crates/weaver_infer/src/lib.rs add_sample"), ("registry document", "crates/weaver_infer/src/lib.rs to_semconv_spec"), ("output", "src/registry/infer.rs")],
     "exploration", "An independent model accumulates the acknowledged and the sent requests; the file must lie between both, and equal the model when one client's requests are answered one by one.",
     observe=["inferred registry file", "exit code"])

prop("C15", "A remote input is used completely or not at all",
     "A command whose registry, dependencies, baseline, policies, templates or published package are fetched over HTTP gives the same exit code, output and diagnostics however the server delivers them: any framing, "
     "redirects, pauses and packet sizes. When the delivery fails (refused, cut, reset, stalled or lost connections, error statuses, redirect loops, wrong or truncated bodies, errors storing the download) the "
     "command either still gives exactly that result or fails with a diagnostic: it never uses a part of an input. It always ends within the request time limits, and leaves no temporary files behind.",
     ["fault_sequences", "inputs", "histories"], "every place in the byte stream at which a delivery is cut, reset, delayed or stalled, every status and redirect, every disk error and kill while the download is stored and unpacked",
     "The tests download from a healthy local server, or need the network; none of them cuts a response or makes a server stall.",
     ["crates/weaver_common/src/vdir.rs", "crates/weaver_common/src/http_auth.rs", "crates/weaver_semconv/src/registry_repo.rs", "crates/weaver_semconv/src/json_schema.rs"],
     [("download and unpacking of archives", "crates/weaver_common/src/vdir.rs"), ("remote files", "crates/weaver_common/src/vdir.rs try_from_file"), ("published packages", "crates/weaver_semconv/src/registry_repo.rs")],
     "fault_enumeration", "Scripted servers deliver byte by byte what the plan says; the calm delivery of the same documents is the oracle.", observe=["exit code", "stdout", "diagnostics", "output files", "temporary directories", "simulated run time"])

prop("C16", "A credential is sent to the host it was configured for and nowhere else",
     "Every request for a remote input carries the token of the most specific [[auth]] rule whose URL prefix covers the requested URL, and no token when no rule covers it or the rule's source is unset or empty. No token "
     "reaches another host: not one that merely shares the textual prefix, not the target of a redirect to another host. Tokens appear in no output, diagnostic or file.",
     ["inputs", "histories", "fault_sequences"], "every set of rules and hosts, every redirect chain, every failing delivery, retries included",
     "The tests check the choice of a rule on a few URLs in isolation; what is really sent to whom, redirects and failures included, shows only on the wire.",
     ["crates/weaver_common/src/http_auth.rs", "crates/weaver_common/src/vdir.rs", "crates/weaver_semconv/src/registry_repo.rs", "crates/weaver_config/src/auth.rs"],
     [("choice of the rule", "crates/weaver_common/src/http_auth.rs"), ("requests", "crates/weaver_common/src/vdir.rs"), ("users", "crates/weaver_common/src/vdir.rs")],
     "exploration", "Simulated hosts record every header they receive, under deliveries that redirect and fail.", observe=["requests received by every host", "stdout", "diagnostics", "files"])

prop("C17", "Unpacking an archive gives its files and touches nothing else",
     "A registry, baseline, template or policy folder packed in a .zip or .tar.gz archive (local or remote, with or without a sub-folder) gives the same result as the same files in a directory, whatever the order of the entries, "
     "extra directories, duplicates or unrelated files. Whatever entries an archive contains (.. components, absolute names, links and chains of links, device nodes), and whatever fails meanwhile, no file or directory outside the "
     "command's temporary folder is created, changed or removed, and that folder is gone when the command ends.",
     ["inputs", "fault_sequences", "crash_points"], "every archive, every sequence of entries, every disk error, short read and kill while unpacking",
     "The tests unpack two well-formed archives; that no sequence of entries and no error while unpacking lets a write out of the folder is a statement about all archives and histories.",
     ["crates/weaver_common/src/vdir.rs"],
     [("unpacking", "crates/weaver_common/src/vdir.rs unzip_file, untar_gz_file, path_to_unpack"), ("removal of the temporary folder", "crates/weaver_common/src/vdir.rs")],
     "exploration", "Seeded archives, half of them with entries built to escape; the simulator refuses and records every change outside the scratch folder and the state of everything inside it is compared; the same files in a plain directory are the oracle for ordinary archives.",
     observe=["every file-system change of the process", "exit code", "stdout", "output files", "temporary directories"])

prop("C18", "Piped telemetry is judged as in a file, on arrival, and never silently cut short",
     "Live-check of text lines or JSON samples read from standard input gives the report, files and exit code of the same input in a file, however the bytes are split and delayed and however slowly the output is read. "
     "In streaming mode every line is reported before the next one is needed. An error reading standard input ends the command with a message and a non-zero exit code, never as a complete report.",
     ["inputs", "schedules", "fault_sequences"], "every input, every split and delay of its bytes, every interrupted or failing read",
     "Tests feed the iterators from memory; partial lines and characters, waiting writers, blocked output and failing reads only exist with a real pipe.",
     ["crates/weaver_live_check/src/text_stdin_ingester.rs", "crates/weaver_live_check/src/json_stdin_ingester.rs", "src/registry/live_check.rs"],
     [("reading text", "crates/weaver_live_check/src/text_stdin_ingester.rs TextStdinIterator"), ("reading JSON", "crates/weaver_live_check/src/json_stdin_ingester.rs"), ("streaming and report loop", "src/registry/live_check.rs command")],
     "exploration", "Simulated pipes with a scripted writer and reader; the same input in a file is the oracle; interactive writers wait for each line's finding under simulated time; read errors are injected at chosen reads.",
     observe=["bytes on standard output", "output files", "exit code", "time at which lines are reported"])

prop("C19", "Every MCP request gets its own answer, exactly once",
     "Over an MCP session every request is answered exactly once, under its own id, with the answer it would get from a new server asked nothing else: earlier requests, pipelining, notifications, split or delayed messages, "
     "slow readers and schedules make no difference. What a search lists can be looked up under the same name and content. Nothing but protocol messages appears on standard output, and the server ends with exit code 0 when its input ends.",
     ["inputs", "schedules", "histories"], "every sequence of requests, every interleaving and split of their bytes",
     "Tests call tool functions directly and one at a time; answers that depend on history, concurrency or partial reads need whole sessions.",
     ["crates/weaver_mcp/src/service.rs", "crates/weaver_mcp/src/lib.rs", "crates/weaver_search/src/lib.rs", "src/registry/mcp.rs"],
     [("tools", "crates/weaver_mcp/src/service.rs"), ("serving standard input and output", "crates/weaver_mcp/src/lib.rs"), ("search", "crates/weaver_search/src/lib.rs")],
     "exploration", "Simulated stdio sessions under seeded schedules, differential against a new server per request; search results are checked against look-ups.",
     observe=["messages on standard output", "exit code"])

prop("C20", "Every HTTP API request is answered from the served registry",
     "The HTTP server answers every request from the resolved registry it serves: look-ups return the entry of that name or 404, listing without a query enumerates exactly the entries of the chosen kind with pages that partition the "
     "list, filters return what they select from the registry, and the answer to a request is the same for every client, at any time, whatever other clients send, however slowly they read or abruptly they leave. "
     "Failing accepts and connections do not stop the server.",
     ["inputs", "schedules", "fault_sequences"], "every set of clients and requests, every interleaving, connection fault and accept error",
     "Tests call handlers with one request each; histories of concurrent, broken and slow clients are out of their reach.",
     ["src/serve/server.rs", "src/serve/handlers.rs", "crates/weaver_search/src/lib.rs"],
     [("routes", "src/serve/server.rs"), ("handlers", "src/serve/handlers.rs"), ("search, filters and paging", "crates/weaver_search/src/lib.rs")],
     "exploration", "Scripted HTTP clients over a simulated network with seeded chopping, delays, resets and accept failures; answers compared with a new server's and with the registry the server returns whole.",
     observe=["HTTP responses", "exit code", "time to answer"])

prop("C21", "A Git repository gives the files of the requested commit, or an error",
     "A registry, dependency, baseline, template or policy folder in a Git repository gives the same result as the files of the requested branch, tag or commit (without one: of the default branch) in a directory, whatever other "
     "commits, branches, tags, folders and files the repository has. A name, commit or sub-folder that it does not have is an error. When the transfer fails (refused, cut, reset or stalled connections, error statuses, damaged or "
     "incomplete packs, disk errors) the command either still gives that result or fails with a diagnostic: it never uses another commit or a part of one. It always ends in bounded time, whatever the repository contains nothing "
     "outside the command's temporary folder is created, changed or removed, and that folder is gone when the command ends.",
     ["inputs", "schedules", "fault_sequences"], "every history of a repository, every reference to it, every delivery of the answers, every disk error and thread schedule of unpacking and checkout",
     "The tests clone one public repository (not without a network); histories with look-alike names, damaged packs and broken transfers are not among them.",
     ["crates/weaver_common/src/vdir.rs"], [("clone, choice of the commit and checkout", "crates/weaver_common/src/vdir.rs try_from_git_url, checkout_sha"), ("references to remote folders", "crates/weaver_common/src/vdir.rs REGISTRY_REGEX")],
     "exploration", "A simulated Git server (smart HTTP, version 2) offers seeded repositories; the requested commit's files in a directory are the oracle, a snapshot comparison of the whole scratch tree shows what was touched.",
     observe=["exit code", "standard output", "files", "diagnostics", "temporary folder"])

# ------------------------------------------------------------------ not applicable to this technique
NA = "Pure function of its input: no schedule, clock, I/O order, peer or crash point can change it, so simulated executions would be ordinary input testing and decide nothing this technique is for."
prop("C40", "References, extensions and imports resolve by the documented rules",
     "A resolved signal carries exactly the attributes its references, extensions, imports and refinements give it, with local overrides winning, and every reported conflict is real.",
     ["inputs"], "every registry", "Needs an independent semantics of resolution over all registries; tests compare a few expected files.",
     ["crates/weaver_resolver/src/registry.rs", "crates/weaver_resolver/src/attribute.rs"], [("resolution fixpoint", "crates/weaver_resolver/src/registry.rs")], na=NA + " Its schedule-dependent part is C01.")
prop("C41", "Registry diffs are complete and minimal",
     "The changes reported between two versions of a registry, applied to the baseline, give the head version, and unchanged items are not reported.",
     ["inputs"], "every pair of registries", "Tests compare a few pairs.", ["crates/weaver_version/src/schema_changes.rs", "crates/weaver_resolved_schema/src/lib.rs"],
     [("diff", "crates/weaver_resolved_schema/src/lib.rs diff")], na=NA + " Its schedule-dependent part is C01.")
prop("C42", "Case conversions and filters used in templates are stable and total",
     "Template filters and case conversions accept every string and give the documented conversion.",
     ["inputs"], "every string", "Tests use a list of examples.", ["crates/weaver_forge/src/extensions/case.rs", "crates/weaver_forge/src/extensions/code.rs"],
     [("filters", "crates/weaver_forge/src/extensions")], na=NA)
prop("C43", "Command line, project file and defaults combine in the documented order",
     "For every option the command line overrides the project configuration file, which overrides the default.",
     ["configurations"], "every combination of option sources", "Tests use a few combinations.", ["crates/weaver_config/src/overrides.rs", "src/registry/mod.rs"],
     [("override macros", "crates/weaver_macros/src/lib.rs")], na=NA)
prop("C44", "Published JSON schemas accept exactly what the tool reads and writes",
     "Every document the tool accepts or emits validates against the JSON schema it publishes for that document.",
     ["inputs"], "every document", "Tests check a few documents.", ["src/registry/json_schema.rs", "schemas"], [("schema derivation", "src/registry/json_schema.rs")], na=NA)
