HOW = {
"C01": "Real `DebugAdapterConnection.receive_data/next_message` and `unpack`; read boundaries, header texts, identifiers and sequence numbers symbolic. Oracle: the list of messages the harness framed.",
"C02": "Real `queue_msg/data_to_send`; sizes of partial drains symbolic. Oracle: an independent frame parser over the concatenated output.",
"C03": "Every message class packed and unpacked with symbolic field values. Oracle: `props/dapspec.py`, the DAP specification's keys written down independently.",
"C05": "Real MPQueue pairs over modelled sockets. Oracle: the sequence sent.",
"C06": "Real SocketHelper and cancellation token under all schedules. Oracle: what a reference model says each operation may end with.",
"C07": "Whole adapter (and debuggee) under the scheduler. Oracle: one response per request sequence number and a working session afterwards.",
"C08": "Whole system with a modelled interpreter exit. Oracle: nothing left alive, session events counted, disconnect answered.",
"C09": "Real launch and attach handlers with symbolic texts; the generated script is read with a model of sh quoting, and replays run it with the real /bin/sh. Oracle: the request's own fields.",
"C10": "Mapping functions with symbolic paths in both directions. Oracle: a component-wise prefix replacement.",
"C11": "Registrations and breakpoints in all orders. Oracle: the greatest registered line at or before the breakpoint.",
"C12": "Histories of SetBreakpoints and registrations. Oracle: a list of live breakpoints by file.",
"C13": "Conditions evaluated by Ansible's real templating; in `formulas` x and y are symbolic integers that Jinja's compiled condition computes with. Oracle: the formula itself.",
"C14": "Runs through nested includes with every command at every stop. Oracle: where the next stop is by the definition of each command.",
"C15": "Results of every class at every place. Oracle: whether Ansible would report the failure to the user, by the playbook's structure.",
"C16": "Oracle: the chain of includes the running task is in; frame identities.",
"C17": "Oracle: references live exactly as long as their frame; values shown against the Python values.",
"C18": "Writes in sequences to all scopes. Oracle: a reference model of task options, task variables and host variables, and the values the task finally runs with.",
"C19": "Real strategy plugin over a modelled run. Oracle: the set of threads a client that follows the events has.",
"C20": "Whole system. Oracle: list of tasks executed after the end.",
"C21": "Whole system. Oracle: everything ends, nothing left behind.",
"C22": "Whole system with two senders. Oracle: strict parser of the client's stream, event counts.",
"C23": "Parser and announcer of addresses composed. Oracle: equality of the socket's name.",
"C24": "Listener creation with symbolic umask. Oracle: mode of the file at the moment it appears.",
"C25": "Real context builders and handshakes with stand-in TLS. Oracle: table of which certificates the settings accept.",
"C26": "Real argparse (instrumented) to environment to callback options (read by Ansible's own `ensure_type` from the callback's documentation). Oracle: the option values chosen.",
"C27": "Playbooks are loaded by Ansible itself from generated files. Oracle: the generator's list of task, block and play lines.",
"C28": "Real shlex/argparse on symbolic command texts. Oracle: the parts the text was composed of.",
"C04": "Whole system. Oracle: stops computed from the last breakpoints and filters set, the tasks in order, the list of implemented capabilities.",
"C29": "Real strategy plugin and templating with frames whose integers are symbolic. Oracle: the same formula in Python over the frame's own values.",
"C30": "Real strategy plugin with a recording variable manager. Oracle: values and identities of all options and variables before each request, list of stops of the undisturbed run.",
"C31": "Real logging to scratch files; whole system for the sessions. Oracle: the messages at or above the level; the answers and tasks of a session without logging.",
"C32": "The plugin's real methods over recording stand-ins of Ansible's; a path picks the calls, what each returns or raises and where the run stops. Oracle: one call with the same objects, the same result or error back, deep copies of what must not change.",
}
