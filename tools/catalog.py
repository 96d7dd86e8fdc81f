"""Source of properties.jsonl and MANIFEST.json (run tools/gen.py)."""

SX = "symbolic execution of the real source with Z3 (path-exhaustive within bounds), counterexamples replayed on the unmodified code"
NOTE = (
    "Bounded: every value within the stated bounds is decided by Z3 over all feasible paths of the real code; "
    "nothing is claimed outside them. Trusts Z3 and the proxy semantics, which are cross-checked by replaying "
    "explored paths on the unmodified code in the project's interpreter. "
)

PROPS = []


def P(id, title, statement, over, quant, why, files, mechanism, note="", technique=SX, state=(), observe=(), na=None):
    PROPS.append(
        dict(
            id=id,
            title=title,
            statement=statement,
            over=over,
            quant=quant,
            why=why,
            files=files,
            mechanism=mechanism,
            note=NOTE + note,
            technique=technique,
            state=state,
            observe=observe,
            na=na,
        )
    )


D = "src/ansibug/"
P(
    "C01",
    "Inbound DAP framing is independent of how the bytes arrive",
    "However the client's byte stream is split into reads, and whatever extra headers it carries, exactly the messages that were sent are delivered, unaltered and in order, each one as soon as its last byte has arrived and never earlier. "
    "A message with a malformed length, an unknown message type, command or event, or a sequence number that is not the next one is rejected with an error and never delivered.",
    ["inputs", "histories"],
    "all read boundaries, header blocks, length texts, identifiers and sequence numbers",
    "The existing tests feed whole, well-formed messages; split points inside headers, multi-byte characters and content that looks like a header are not sampled.",
    [D + "dap/_adapter.py", D + "dap/_messages.py"],
    [{"name": "DebugAdapterConnection.next_message", "where": D + "dap/_adapter.py"}, {"name": "ProtocolMessage.unpack", "where": D + "dap/_messages.py"}],
)
P(
    "C02",
    "Outbound DAP stream is exactly the queued messages",
    "Whatever text messages contain and however the outgoing bytes are drained (in pieces of any size, interleaved with queueing), the bytes handed out form exactly one well-formed frame per queued message in queueing order. "
    "Each frame's Content-Length equals the byte length of its JSON body, the body carries the queued field values, and sequence numbers on the wire are 1, 2, 3, ...",
    ["inputs", "histories"],
    "all message texts and all sequences of partial drains",
    "Tests drain everything at once and use ASCII texts.",
    [D + "dap/_adapter.py", D + "dap/_messages.py"],
    [{"name": "DebugAdapterConnection.queue_msg / data_to_send", "where": D + "dap/_adapter.py"}],
)
P(
    "C03",
    "Messages use the protocol's field names and survive a round trip",
    "Every request, response and event is encoded with the JSON keys, nesting and enum values that the Debug Adapter Protocol prescribes, and decoding the prescribed JSON yields the same message with every field in its own attribute. "
    "Leaving out an optional key yields that field's default and, like an unknown extra key, never affects any other field.",
    ["inputs"],
    "all field values of all message types",
    "Tests check single literal examples of some messages; a swapped or dropped key in the others is invisible to them.",
    [D + "dap/_messages.py", D + "dap/_requests.py", D + "dap/_responses.py", D + "dap/_events.py", D + "dap/_types.py"],
    [{"name": "DAPObjectMeta.default_pack/default_unpack and the per-class key maps", "where": D + "dap/_messages.py"}],
)
STRAT = D + "ansible_collections/ansibug/dap/plugins/strategy/debug.py"
DBGEE = D + "_debuggee.py"
WAIT = "The strategy's condition variable is replaced by one that hands control to a modelled client while the thread is stopped."
P(
    "C11",
    "A breakpoint resolves to the task that covers its line",
    "Whatever entries have been registered in a file and whenever the breakpoint was set, a breakpoint is verified exactly when a task covers its line: it moves to that task's first line and ends where the next entry begins. "
    "It stays unverified where nothing or only a block covers its line, and every BreakpointEvent names a breakpoint that the client has. A task is then stopped at exactly when a verified breakpoint covers it.",
    ["inputs", "histories"],
    "all registered lines and kinds, all breakpoint lines, before and after registration",
    "Tests register fixed playbooks; the line arithmetic between registrations in any order is not sampled.",
    [DBGEE],
    [{"name": "AnsibleDebugger.register_path_breakpoint / get_breakpoint / _set_breakpoints", "where": DBGEE}],
)
P(
    "C12",
    "The client's view of breakpoints is always the debugger's",
    "After every history of SetBreakpoints requests and of files being loaded, applying the responses and the BreakpointEvents in the order sent gives exactly the state the debugger acts on: one breakpoint per requested line with ids that are never reused, the same verified state and lines, and stops only for breakpoints of the latest request for each file. "
    "Breakpoints of one file never affect another file, and those in a source the client marked as modified are not verified.",
    ["histories"],
    "all histories of requests and registrations",
    "Tests replace breakpoints at most once and never interleave it with loading of the file.",
    [DBGEE],
    [{"name": "AnsibleDebugger._set_breakpoints and breakpoint change events", "where": DBGEE}],
)
P(
    "C13",
    "A task is stopped at exactly when a breakpoint on it has a true condition",
    "With any number of breakpoints on a task, the run stops at it for a host exactly when one of them has no condition or a condition that is true for that host's variables, and the stop names such a breakpoint and the host's thread. "
    "A condition that is undefined, malformed or fails to evaluate counts as false and never disturbs the playbook.",
    ["inputs"],
    "all combinations of breakpoints, conditions and host variables",
    "Tests use a single breakpoint with a well-formed condition.",
    [DBGEE, STRAT],
    [{"name": "AnsibleDebugger.get_breakpoint", "where": DBGEE}, {"name": "AnsibleDebugState.start_task eval_condition", "where": STRAT}],
    WAIT,
)
P(
    "C14",
    "Stepping stops at the right task for every include structure",
    "After a stop, continue runs to the next breakpoint; step over stops at the next task in the same include (or play) as the stopped task; step in stops at the next task if the stopped task is an include and otherwise acts like step over; step out ignores breakpoints and stops at the first task that is outside the include the stopped task is in. "
    "A stopped thread stays stopped until a request resumes that thread: requests for other threads and queries never resume it, and continue resumes only its own thread if singleThread is set and every thread otherwise.",
    ["inputs", "histories"],
    "all include structures, breakpoint positions and sequences of step commands",
    "Tests run a few playbooks with a fixed command sequence each.",
    [STRAT],
    [{"name": "AnsibleThread.set_state / should_break", "where": STRAT}, {"name": "AnsibleDebugState._resume_threads", "where": STRAT}],
    WAIT,
)
P(
    "C15",
    "Results stop the run exactly as the chosen exception filters say",
    "A task that fails without ignore_errors and without a rescue that will handle it stops the run exactly when the error filter is on; an unreachable host without ignore_unreachable exactly when the unreachable filter is on; a skipped task exactly when the skipped filter is on; nothing else stops it. "
    "A rescue handles failures in the body of its block, not those in its rescue or always section. At such a stop the task's frame is on top, its complete result is the first scope, its description says whether the task failed, was skipped or its host was unreachable, and the text shows the message, exception or skip reason; the run then goes on as the client chose, with steps relative to that task.",
    ["inputs"],
    "all filter sets, result shapes, ignore flags and block structures",
    "Tests cover single filters with plain tasks; rescue nesting and filter combinations are not sampled.",
    [STRAT, D + "ansible_collections/ansibug/dap/plugins/plugin_utils/_breakpoints.py"],
    [{"name": "AnsibleThread.should_stop_on_exception", "where": STRAT}, {"name": "AnsibleDebugState.end_task", "where": STRAT}],
    WAIT,
)
P(
    "C16",
    "The stack of a stopped thread is the task and the includes it is in",
    "At every stop, the stack trace of the stopped thread is the task about to run followed by exactly the dynamic includes (tasks or roles) that it is inside of, innermost first, each with its own line, whatever nesting, blocks or failures came before and whatever other hosts did. "
    "Frame ids are unique and never reused, and the frame of a running include keeps its id.",
    ["inputs", "histories"],
    "all nestings of includes and blocks, for one and two hosts",
    "Tests have one include level, no nested unwinding and a single host.",
    [STRAT],
    [{"name": "AnsibleDebugState.start_task / end_task stack handling", "where": STRAT}],
    WAIT,
)
P(
    "C17",
    "Variable references show the stopped frame's values and end with it",
    "While a frame is on the stack, every variables reference handed out for it (by scopes or by expanding a container) is new, shows exactly the names, values, types and child counts of what it stands for, and keeps doing so however many other requests come in between. "
    "Once the frame's task has finished, its references are gone: they answer with an error and never with another frame's data.",
    ["histories"],
    "all sequences of scopes and variables requests over the frames of a run",
    "Tests expand a single scope once.",
    [STRAT],
    [{"name": "AnsibleDebugState.get_scopes / get_variables / _add_variable", "where": STRAT}],
    WAIT,
)
P(
    "C18",
    "What the client sets is what the task runs with",
    "A value set by the client, through a SetVariable request on any scope and at any depth or through the console's set and remove commands, is the value of the expression over the frame's current variables and changes exactly the addressed option or variable: module options change in the task about to run, task variables in the variables it runs with, host variables are saved for that host and no other. "
    "The response and the variables shown afterwards carry the new value and type; an expression that cannot be evaluated changes nothing.",
    ["inputs", "histories"],
    "all targets, expressions and sequences of writes",
    "Tests set one top-level option and one host variable.",
    [STRAT],
    [{"name": "AnsibleDebugState.set_variable / evaluate", "where": STRAT}, {"name": "AnsibleVariable subclasses", "where": STRAT}],
    WAIT,
)
P(
    "C10",
    "Paths are translated between client and Ansible by the first matching mapping",
    "A client path inside the local root of a path mapping stands for the same path under the remote root, and a path Ansible runs inside the remote root is shown under the local root; the first mapping whose root contains the path as a directory decides, and all other paths are left alone. "
    "Breakpoints of a translated path are set in the file that it stands for and are answered and reported with the client's own path, and stack frames show the client's path.",
    ["inputs"],
    "all paths and mappings, with and without trailing separators",
    "Tests map one root with one file below it; roots beside, inside or equal to other roots are not sampled.",
    [DBGEE, STRAT],
    [{"name": "AnsibleDebugger._set_breakpoints / convert_to_client_path", "where": DBGEE}, {"name": "PathMapping", "where": DBGEE}],
)
P(
    "C23",
    "Socket addresses survive being announced and parsed",
    "Parsing the address that a listener announces leads back to the same Unix socket path, or the same host and port, whatever characters the path contains and for names, IPv4 and IPv6; a listener serves exactly the host and port of its address. "
    "tcp:// is every interface with a free port, tcp://:port every interface, uds:// a new path each time, uds://name a socket in the temporary directory; every other scheme, a TCP address without a usable port, and a Unix socket address with both a name and a path are rejected with ValueError.",
    ["inputs"],
    "all paths, hosts, ports and schemes",
    "Tests parse ten literal addresses with plain characters.",
    [D + "_socket_helper.py", D + "_mp_queue.py"],
    [{"name": "parse_addr_string", "where": D + "_socket_helper.py"}, {"name": "MPQueue.address, ServerMPQueue", "where": D + "_mp_queue.py"}],
)
SCHED = (
    "Schedules are choice variables too: every placement of up to `delays` preemptions at the stated statements and blocking calls, on top of running each thread until it blocks. "
    "Sockets, TLS and Ansible's linear strategy are stand-ins."
)
MPQ = D + "_mp_queue.py"
SOCK = D + "_socket_helper.py"
DA = D + "_debug_adapter.py"
P(
    "C05",
    "The queue between adapter and playbook delivers all messages in order",
    "However the stream between the debug adapter and the playbook is cut into reads, each side gets exactly the messages that the other side sent, unaltered and in order; a part of a message is never delivered. "
    "The end of the connection is reported exactly once on each side, after the last message, and as an error exactly when it comes inside a message or the connection breaks; messages sent before an orderly stop still arrive. Sending and stopping never hang, whichever side stops when.",
    ["inputs", "schedules", "crash_points"],
    "all read boundaries, all points where a peer disappears, all schedules of two sides sending and stopping",
    "Tests exchange small messages over loopback, where every read gets a whole message, and stop at quiet moments.",
    [MPQ, SOCK],
    [{"name": "MPQueue / ClientMPQueue / ServerMPQueue", "where": MPQ}, {"name": "SocketHelper.recv / send", "where": SOCK}],
    SCHED,
)
P(
    "C06",
    "Cancelling interrupts every blocked socket operation and nothing else",
    "Whenever a cancellation token is cancelled, each accept, connect, recv or send that is under way ends promptly: with its own correct result if it finished first, otherwise as cancelled, and every one that starts afterwards is cancelled at once. This holds for several operations at the same time, whether or not their connections are broken. "
    "Without a cancellation an operation ends with its own result or its own error, and an accept without a client or a connect without an answer times out after the time given.",
    ["schedules", "fault_sequences"],
    "all interleavings of operation, peer and cancellation",
    "Tests cancel one operation that is surely blocked already; the windows around start and completion are never hit.",
    [SOCK],
    [{"name": "SocketCancellationToken", "where": SOCK}, {"name": "SocketHelper", "where": SOCK}],
    SCHED,
)
P(
    "C20",
    "The end of a session leaves the playbook as the client asked",
    "However a session ends, at any moment of the run, the playbook process and the debug adapter both end. After a terminate request or a disconnect with terminateDebuggee no further task is started; after any other end (disconnect, or the client going away) every remaining task runs, in order, and neither a breakpoint, a failure nor a step in progress stops the playbook again.",
    ["schedules", "histories"],
    "all moments of the end and all schedules around it",
    "Tests disconnect while the playbook is stopped at a breakpoint; ends that race with tasks, stops or new plays are not sampled.",
    [DBGEE, STRAT, DA],
    [{"name": "AnsibleDebugger.closed / disconnect handling", "where": DBGEE}, {"name": "AnsibleDebugState.ended", "where": STRAT}],
    SCHED,
)
P(
    "C21",
    "The debugger never keeps a playbook from ending",
    "Whenever a session ends, by disconnect, terminate, the client's end of input or a lost connection, and also while the playbook still waits for its configuration, the playbook goes on to its end without an error of the debugger. The debug adapter ends, a disconnect is answered, the end of the session is reported once, and no thread, socket or process information file is left behind. "
    "A playbook whose debug adapter cannot be reached, or that nobody attaches to without being told to wait, runs all of its tasks.",
    ["schedules", "fault_sequences"],
    "all moments and ways of losing the client, and all schedules around them",
    "Tests end sessions in order; a hang needs the loss of the connection at a particular moment.",
    [DBGEE, DA, STRAT, D + "ansible_collections/ansibug/dap/plugins/callback/debug.py"],
    [{"name": "AnsibleDebugger.start / shutdown / wait_for_config_done", "where": DBGEE}, {"name": "start_dap / DAServer", "where": DA}],
    SCHED,
)
P(
    "C22",
    "Messages from concurrent threads reach the client as one valid stream",
    "While the adapter answers the client and the playbook's events arrive on another thread, the client receives one sequence of complete messages numbered 1, 2, 3, ..., no thread event is lost, no request is answered twice, and nothing follows the terminated event. "
    "A request that is being handled when the connection to the playbook is lost is answered exactly once, and the end of the session is reported.",
    ["schedules"],
    "all interleavings of the two threads that send to the client",
    "The race of two senders shows only in a window of a few statements.",
    [DA, D + "dap/_adapter.py"],
    [{"name": "DAServer.send_to_client / send_to_debuggee", "where": DA}],
    SCHED,
)
P(
    "C25",
    "TLS connections are verified as configured and never fall back",
    "A client that verifies accepts only a server whose certificate comes from the trusted or given CA and names it; it never sends or reads messages otherwise. A server with a client CA accepts only clients with a certificate of that CA, and one with TLS never talks to a client without it. "
    "The contexts follow every setting exactly: verify, ignore or a CA file or folder, and the certificate, key and password given; a CA that does not exist is refused. A client that fails, goes or stays silent during the handshake does not end the listener, the next valid client is accepted, and stopping works at every moment of the handshake.",
    ["inputs", "schedules", "fault_sequences"],
    "all settings, all kinds of bad peers and all moments of stopping",
    "Tests make one good handshake; bad or silent clients before a good one and stops during a handshake are not sampled.",
    [D + "_tls.py", MPQ, SOCK],
    [{"name": "create_client_tls_context / create_server_tls_context", "where": D + "_tls.py"}, {"name": "ServerMPQueue.start / ClientMPQueue.start", "where": MPQ}],
    SCHED + " The certificate rules are those of the stand-in for Python's ssl contexts.",
)
P(
    "C28",
    "A console command runs exactly the command, name and expression typed",
    "In the debug console, ! followed by a command or its alias, a plain or quoted name and an expression runs that command on that name with exactly the expression's text, whatever quotes, backslashes, spaces or braces it contains, and also before the client has looked at the variables of the frame. "
    "A text that is no valid command changes nothing and is answered with a message, never with an internal error.",
    ["inputs"],
    "all command texts, names and expressions",
    "Tests use a handful of expressions without quotes that belong to them.",
    [D + "ansible_collections/ansibug/dap/plugins/plugin_utils/_repl_util.py", STRAT],
    [{"name": "parse_repl_args", "where": D + "ansible_collections/ansibug/dap/plugins/plugin_utils/_repl_util.py"}, {"name": "AnsibleDebugState.evaluate", "where": STRAT}],
)
P(
    "C07",
    "Every request is answered exactly once, also without a playbook",
    "Every request that a client sends while the session runs is answered exactly once, and with the request's own sequence number. This also holds before there is a playbook, while a launch is pending, after an attach or launch that failed, and for a request whose arguments lead nowhere; none of them ends the adapter or the playbook's session. "
    "A disconnect is answered whether or not a playbook was ever started, and the launch of a process that ends early or never connects is answered with a failure.",
    ["inputs", "histories", "fault_sequences"],
    "all request kinds with unusable arguments, at all stages of a session, and all outcomes of an attach or launch",
    "Tests send requests that make sense at the moment they are sent; the answers to all others are not sampled.",
    [DA, DBGEE, STRAT],
    [{"name": "DAServer._process_msg / start_dap", "where": DA}, {"name": "AnsibleDebugger request handlers", "where": DBGEE}],
    SCHED,
)
P(
    "C08",
    "However a playbook ends, its session ends with it",
    "A playbook that reaches its end, is interrupted with Ctrl+C, fails with an exception or is killed, while it waits for its configuration, runs, is stopped at a breakpoint, is between plays or over, really ends: its process does not hang, and the session of a client is ended once. "
    "The client's disconnect is still answered afterwards, the adapter ends, and no process information file or listening socket of a playbook that was not killed stays behind.",
    ["schedules", "crash_points"],
    "all ways and moments of the playbook's end and all schedules around it",
    "Tests end playbooks in order; an interrupt or exception at another moment is not sampled.",
    [DBGEE, D + "ansible_collections/ansibug/dap/plugins/callback/debug.py", DA],
    [{"name": "AnsibleDebugger.start / shutdown", "where": DBGEE}, {"name": "CallbackModule.v2_playbook_on_stats", "where": D + "ansible_collections/ansibug/dap/plugins/callback/debug.py"}],
    SCHED,
)
P(
    "C09",
    "A playbook is launched or attached to exactly as the client asked",
    "A launch asks the client's terminal (of the kind, and in the folder, requested) to run a command that starts exactly the playbook and arguments given, with exactly the environment given, whatever quotes, spaces, newlines or shell characters they contain, and that leads back to the adapter's own listener. "
    "An attach connects to the address given, or the one the process announced, with TLS exactly if the listener uses it and with the client's TLS settings, within the timeout; path mappings and timeouts are those of the request. Anything that cannot be done is answered with a failure.",
    ["inputs", "fault_sequences"],
    "all arguments, environments, folders and options of launch and attach requests, and all outcomes of the connection",
    "Tests launch with plain words; quoting and the combinations of options and failures are not sampled.",
    [DA, D + "dap/_requests.py", DBGEE],
    [{"name": "DAServer launch / attach handling", "where": DA}, {"name": "get_pid_info_path and the playbook process information", "where": DBGEE}],
    "Process start and sockets are stand-ins; launch scripts are read by a model of sh quoting and, on replay, run by the real sh.",
)
P(
    "C24",
    "Unix sockets belong to their user alone",
    "Every Unix socket that ansibug listens on is accessible to its user only from the moment it exists, whatever umask the process has and whether or not the system can set permissions before the socket is bound, and the umask is afterwards what it was. "
    "If the permissions or the address cannot be set, no listener is made, and a file that was already there is left alone. The file of a socket is removed when its listener stops.",
    ["inputs", "fault_sequences"],
    "all umasks, names and failures of the steps that make the socket",
    "Tests check one socket under the umask of the test run.",
    [SOCK, MPQ],
    [{"name": "create_uds_with_mask", "where": SOCK}, {"name": "ServerMPQueue", "where": MPQ}],
    "Sockets are stand-ins with the semantics of Linux for permissions, umask and names.",
)
P(
    "C26",
    "The command line reaches the debugger and Ansible unchanged",
    "Every option of ansibug listen, connect and dap has exactly the effect of its own value on the debugger: address, waiting, TLS, certificate, key, password, CA, logging and timeouts. The playbook runs with exactly the Ansible arguments given. "
    "Callbacks that were enabled, collection paths, Python paths and all other environment variables stay as they were, with ansibug's own added.",
    ["inputs"],
    "all values and combinations of the options, Ansible arguments and existing configuration",
    "Tests pass one literal command line each; how a value travels over argparse, the environment and Ansible's options is not sampled.",
    [D + "__main__.py", D + "_exec_playbook.py", D + "ansible_collections/ansibug/dap/plugins/callback/debug.py"],
    [{"name": "parse_args / main", "where": D + "__main__.py"}, {"name": "exec_playbook_connect / exec_playbook_listen / _configure_ansible_env", "where": D + "_exec_playbook.py"}, {"name": "CallbackModule.v2_playbook_on_start", "where": D + "ansible_collections/ansibug/dap/plugins/callback/debug.py"}],
)
P(
    "C19",
    "The threads a client knows are the hosts that are running",
    "Every host that starts a task has exactly one thread from then until its play ends or the inventory is refreshed: its start and its exit are each reported once, by an id that is never used again in the session, and no thread is left over after a play. "
    "The threads shown on request are the main thread and exactly those, under their hosts' names, and every stop names the thread of the host it is for. Frame ids are never used again either, and frames and variables of a thread that has exited cannot be looked at any more.",
    ["histories"],
    "all histories of tasks, meta tasks, inventory refreshes and plays on two hosts",
    "Tests run one play with one host; refreshed inventories and several plays are not followed by a client that counts.",
    [STRAT, DBGEE],
    [{"name": "AnsibleDebugState.start_task / exit_threads / get_threads", "where": STRAT}, {"name": "StrategyModule.run / _execute_meta", "where": STRAT}],
    WAIT + " The methods of Ansible's linear strategy that the plugin extends are stand-ins.",
)
P(
    "C27",
    "Every task can have a breakpoint as soon as its file is loaded",
    "When a playbook starts, a breakpoint can be set on every task of every play, whatever section, block, rescue, always, handler, role, dependency, imported file or imported playbook it is in, and covers exactly the lines of that task; the lines of a block itself cannot have one. "
    "The same holds for an included file as soon as it is loaded, including the handlers of roles that it imports, and for an included role by the time its first task starts; breakpoints set before are verified then.",
    ["programs", "inputs"],
    "all nestings of sections, blocks, imports, roles and includes, and all lines of their files",
    "Tests load a few fixed playbooks; nesting of imports, roles, handlers and blocks in each other is not sampled.",
    [D + "ansible_collections/ansibug/dap/plugins/plugin_utils/_breakpoints.py", STRAT, D + "ansible_collections/ansibug/dap/plugins/callback/debug.py"],
    [
        {"name": "register_play_breakpoints / register_block_breakpoints", "where": D + "ansible_collections/ansibug/dap/plugins/plugin_utils/_breakpoints.py"},
        {"name": "StrategyModule._load_included_file, AnsibleDebugState.start_task", "where": STRAT},
    ],
    "Playbooks are loaded by Ansible itself from files that the check writes.",
)
P(
    "C04",
    "A playbook starts with exactly what its client has configured",
    "After a launch or attach was answered, the client is told exactly once that it can configure, and a playbook that waits runs no task before configurationDone. The breakpoints and exception filters that are in force are those set last: every task runs, and stops happen exactly at those breakpoints and results, in the client's paths. "
    "The capabilities announced are exactly the ones there are, each announced exception filter works for its own kind of result, and the filters on by default are those for failures and unreachable hosts.",
    ["histories", "schedules", "configurations"],
    "all sequences of configuration requests, sent one by one or at once, and all schedules of the threads that handle them",
    "Tests configure in one fixed order, wait for every answer, and never set a filter or breakpoint again before the start.",
    [D + "_debug_adapter.py", DBGEE, D + "ansible_collections/ansibug/dap/plugins/callback/debug.py", STRAT],
    [
        {"name": "DAServer._process_msg for initialize, attach and launch", "where": D + "_debug_adapter.py"},
        {"name": "AnsibleDebugger.process_message, wait_for_config_done", "where": DBGEE},
        {"name": "CallbackModule.v2_playbook_on_start", "where": D + "ansible_collections/ansibug/dap/plugins/callback/debug.py"},
    ],
    "Threads run on a modelled schedule, sockets and stdio are stand-ins.",
)
P(
    "C29",
    "An evaluated expression shows its value in the frame it is asked for",
    "Evaluating an expression in a watch, in the console or to copy a value shows the value and type it has for the variables of the frame asked for, whichever other frames and threads there are. An expression that is undefined, malformed or fails shows a message without a type and is no failed request; an unknown frame is one. "
    "Nothing but the console runs console commands, no expression is evaluated for hovering or without a frame, and an evaluation changes no variable and neither resumes the playbook nor sends an event.",
    ["inputs", "histories"],
    "all values of the variables in each frame, expressions of every kind and all contexts",
    "Tests evaluate fixed expressions in the only frame of a single host.",
    [STRAT],
    [{"name": "AnsibleDebugState.evaluate / _safe_evaluate_expression / _template", "where": STRAT}],
    WAIT + " Jinja and Ansible's templating run as they are, on symbolic integers.",
)
P(
    "C30",
    "Looking at a stopped playbook changes nothing in it",
    "While a playbook is stopped, listing threads, stacks, scopes and variables, evaluating expressions, changing breakpoints, and commands or values that are refused leave the options of its tasks, still templates, and every variable as they were, save nothing, send no event and do not let it go on. "
    "After them it runs, steps and stops just as it would have without them.",
    ["inputs", "histories"],
    "every sequence of such requests, every reference and value, every way to go on afterwards",
    "Tests look at a few variables and never compare the playbook before and after.",
    [STRAT],
    [{"name": "AnsibleDebugState.process_message / get_scopes / get_variables / evaluate / set_variable", "where": STRAT}],
    WAIT + " Jinja and Ansible's templating run as they are.",
)
P(
    "C31",
    "Logging records what was asked for and changes nothing else",
    "With a log file, exactly the messages that ansibug logs at the chosen level or above are added at its end, in UTF-8 and in the chosen format, and nothing is logged to the client's stream. "
    "Whatever the level, whatever texts the messages hold and wherever the client's bytes are cut, requests are answered and the playbook runs as without logging.",
    ["inputs", "configurations"],
    "all level numbers, texts and cuts",
    "Tests log one session of plain ASCII at one level and never look at what is left out.",
    [D + "_logging.py", D + "_debug_adapter.py"],
    [
        {"name": "configure_file_logging", "where": D + "_logging.py"},
        {"name": "DAServer.start, DAServer.send_to_client", "where": D + "_debug_adapter.py"},
    ],
    "Python's logging and the log files are real; threads, sockets and stdio are stand-ins.",
)

P(
    "C32",
    "Ansible's own work goes through the debugger unchanged",
    "Every play, task, meta task, batch of results and included file that Ansible's strategy handles under the debugger is handled by Ansible exactly once, with the objects that Ansible gave; "
    "what it returns (the play's result, the results and blocks in their order) or raises comes back unchanged, and the variables, options, results and handlers are not altered, whether or not the run stops in between. Each play ends the threads it started, also when it ends with an error.",
    ["inputs", "histories"],
    "all sequences of strategy calls, return values, errors and stops",
    "Tests look at the messages to the client, not at what Ansible is given and gets back, and no Ansible call fails in them.",
    [STRAT],
    [
        {"name": "StrategyModule.run, _queue_task, _process_pending_results", "where": STRAT},
        {"name": "StrategyModule._execute_meta, _load_included_file", "where": STRAT},
    ],
    "Ansible's own strategy methods are stand-ins that record their calls.",
)
