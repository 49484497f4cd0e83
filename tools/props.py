prop("P01", "Every process that ends is noticed, exactly once",
 """Whenever a process procstar started ends, procstar collects it without further prompting and from then on reports it as terminated; no process that
 ended stays reported as running and none that still runs is ever reported as terminated. This holds however the ends of several processes, their output
 and requests coincide, and procstar itself never fails over it.""",
 "schedules histories", "All orders and coincidences of process ends, signals' arrivals (merged or spurious SIGCHLD), output and requests, also in the middle of procstar's own steps.",
 "Tests end one process at a time and wait generously; merged SIGCHLDs and ends between procstar's own steps do not occur on demand.",
 "src/procs.rs src/sig.rs src/sys.rs", [("a task per process waits for SIGCHLD, then polls wait4", "src/procs.rs wait_for_proc"), ("SIGCHLD broadcast", "src/sig.rs SignalWatcher")],
 [("wait_info", "set exactly when the process has been waited for", "src/procs.rs Proc")])
prop("P02", "The reported exit status is the one the process ended with",
 """For a terminated process, the reported status gives the wait status it ended with: its exit code if it exited and null otherwise, the number and name of the signal that ended it if one did
 and null otherwise, and whether it dumped core. The result is the same whether it is printed, written to a file, served over HTTP or sent to an agent server.""",
 "inputs", "All 256 exit codes, every signal number that ends a process, with and without core dump, through every way of reporting.",
 "Tests sample exit codes 0 and 1 and SIGTERM/SIGKILL.",
 "src/res.rs src/procs.rs src/sig.rs", [("wait status decoding", "src/res.rs Status::new"), ("signal names", "src/sig.rs")])
prop("P03", "A final result holds all output the process wrote",
 """When a process is reported as terminated, each captured fd's output in that result consists of exactly the bytes that the process wrote to it, in order: none missing, none added, none mixed up with another
 fd's or process's; as base64 data, or as text if an encoding was given. While it runs, results hold a prefix of what was written, at least as much as procstar had time to read.
 This holds for both kinds of capture, for duplicated fds, and whether results are printed, written, served or sent to an agent server.""",
 "schedules inputs", "All orders of writes, closes, ends and requests, also within procstar's own steps; sizes around the pipe and buffer sizes; bytes that are not valid text.",
 "Tests write a little output, and the process ends well after procstar has read it.",
 "src/fd.rs src/procs.rs src/res.rs src/sys.rs", [("pipe reader task and final drain", "src/fd.rs run_capture_memory, drain"), ("unlinked temp file", "src/fd.rs UnlinkedFile"), ("encoding", "src/res.rs FdRes::from_bytes")])
prop("P04", "A request for a range of output gets exactly that range",
 """A request for fd data from start to stop returns the bytes captured there, as far as there are any, labelled with the range they are; without stop, everything from start on. A range that makes no sense is answered
 by an error or by no data and never by wrong data, and no such request disturbs procstar, the process, or what is captured later. The same holds for the complete output fetched over HTTP.""",
 "inputs schedules", "Boundary values of start and stop around the captured length and the integer limits, both kinds of capture, running and terminated processes, requests between writes.",
 "Tests fetch one or two well-formed ranges.",
 "src/fd.rs src/proto.rs src/http.rs src/sys.rs", [("range reads", "src/fd.rs get_data, src/sys.rs read_from_file"), ("request handling", "src/proto.rs ProcFdDataRequest")])
prop("P05", "Detached output is announced, kept, and never attached",
 """If an fd's capture is not attached, results never contain its output but say that it is detached, with the number of bytes captured so far (complete once the process has terminated) and its encoding.
 The output itself remains available by a request for it, until the process is deleted.""",
 "schedules inputs", "All orders of writes, ends and requests; both kinds of capture; mixed with attached captures and duplicated fds.",
 "Tests check one detached output after the process has ended.",
 "src/fd.rs src/res.rs", [("detached results", "src/fd.rs get_result, src/res.rs FdRes::detached")])
prop("P06", "A process has exactly the file descriptors its spec describes",
 """At its start, a process has open exactly the fds that its spec describes, applied in the order given to those that procstar itself was started with: inherited, closed, null, file, duplicate, captured or pipe.
 Whatever fd numbers are named, each is connected to precisely what its entry says, with the access it says, and no fd of procstar's own or of another process is ever open in it.
 An entry that cannot be carried out makes the start fail with an error.""",
 "configurations inputs", "All single entries, all ordered pairs and selected triples of entries over fd numbers 0 to 10 and beyond, with other processes already running, and with procstar itself holding extra fds.",
 "Tests use fds 0, 1 and 2, for which no collision with internal fds is possible.",
 "src/fd.rs src/procs.rs src/sys.rs src/err_pipe.rs", [("fd setup in the child", "src/fd.rs in_child"), ("close-on-exec", "src/sys.rs pipe, mkstemp; src/err_pipe.rs")])
prop("P07", "Procstar keeps no fds or files of processes that are gone",
 """Once processes have ended and been deleted, procstar has no more fds open than before they were started, and no temporary file of theirs remains, however they were configured and
 whether they started successfully, failed, or were rejected; while they exist, the files they are captured in have no name in the filesystem.""",
 "histories fault_sequences", "All fd configurations of one or two processes and all orders of ending, closing and deletion; starts that are rejected or fail at each step.",
 "Tests never count fds.",
 "src/fd.rs src/procs.rs src/err_pipe.rs", [("closing in the parent", "src/fd.rs in_parent, Drop for FdHandler"), ("error pipe", "src/err_pipe.rs in_parent")])
prop("P08", "Pipes between processes carry the bytes and the end of file",
 """If one process's fd is piped to another's, the reader gets precisely the bytes the writer writes, and end of file as soon as the writer has closed its end or ended; the writer gets a broken pipe once the reader has closed its end or ended.
 Neither procstar nor any other process holds an end open, whichever of the processes is started first and whatever else runs.""",
 "schedules configurations", "Pairs, chains and stars of up to four processes in every order of names, with unrelated processes; all interleavings of writes, reads, closes and ends.",
 "One test has two processes and checks the bytes only.",
 "src/fd.rs src/procs.rs src/spec.rs", [("matching up pipe ends", "src/fd.rs Pipes"), ("closing in parent and child", "src/fd.rs in_parent, in_child")])
prop("P09", "A process's environment is as specified and has no agent secrets",
 """A process gets exactly the variables of procstar's environment that its spec inherits (all, none, or those named), with those in vars set or, if null, removed.
 Variables that carry the agent's credentials (PROCSTAR_AGENT_CERT, PROCSTAR_AGENT_KEY, PROCSTAR_AGENT_TOKEN) are never inherited, even if named, though a spec may set them; variables of procstar's that are not text do no harm.""",
 "configurations inputs", "All combinations of inherit forms and vars over present, absent, secret, empty and ill-formed variables.",
 "Tests sample a few environments, none with secrets and ill-formed variables together.",
 "src/environ.rs src/procs.rs src/spec.rs", [("building the environment", "src/environ.rs build")])
prop("P10", "A process is started as specified and isolated from procstar",
 """Each process started execs precisely the executable given, or else the first argument, with exactly the given arguments, in its own session, with no signals blocked and only those ignored that procstar was told to ignore at its own start.
 If procstar is restricted to one executable, no process with another is ever executed.""",
 "configurations inputs", "Combinations of exe and argument lists (empty, odd bytes, long), restricted and not, started from the command line, HTTP and an agent server.",
 "Tests check the arguments of ordinary commands only.",
 "src/procs.rs src/sys.rs", [("exec", "src/sys.rs execve, src/procs.rs get_exe"), ("session and signals", "src/procs.rs setsid, src/sys.rs fork"), ("restriction", "src/procs.rs restrict_exe")])
prop("P11", "A start request is carried out as a whole or not at all",
 """If a request to start processes is rejected (an ID in use, malformed specs, bad or duplicate fds, unmatched pipes, or procstar shutting down), then none of its processes are started, and nothing that existed before changes.
 If it is accepted, then all of its processes appear. The response says which, over HTTP and to an agent server alike.""",
 "inputs histories", "All single defects of a two-process request, at each position, over HTTP and websocket, before and after other processes exist.",
 "Tests check that an error is returned and not that nothing happened.",
 "src/spec.rs src/procs.rs src/http.rs src/proto.rs", [("validation before the first fork", "src/procs.rs start_procs, src/spec.rs validate_procs_fds")])
prop("P12", "A process that cannot be started is reported with the reason",
 """If a process cannot be set up or executed, then its result says error with a message that names the failed step and its cause; it is not reported as terminated or running and does not disturb other processes.
 This holds for each step that can fail, for every kind of reporting, and however its end and its messages arrive.""",
 "fault_sequences schedules", "A failure of each system call in the child, each errno of execve, long messages, several failures at once, and all orders in which end and messages become visible.",
 "Tests execute one missing file.",
 "src/procs.rs src/err_pipe.rs src/fd.rs", [("error pipe", "src/err_pipe.rs"), ("errors before termination", "src/procs.rs run_proc")])
prop("P13", "A shortage of resources fails only what needed the resource",
 """If the system refuses procstar a pipe, a temporary file, a new process or a connection, then only the affected start or connection fails, with an error in the process's result or the response; procstar
 itself, the processes that exist and later requests are unaffected.""",
 "fault_sequences", "A failure of each such call, at each occurrence within a start of one to three processes, and of pairs of them; then normal operation again.",
 "Tests have no fault injection.",
 "src/procs.rs src/fd.rs src/err_pipe.rs src/http.rs", [("handling of failed calls in the parent", "src/procs.rs start_procs, src/fd.rs make_fd_handler")])
prop("P14", "The table of processes follows the requests",
 """The processes that procstar lists are those accepted and not yet deleted, each under its ID and with its own pid, spec and output. A process is deleted only if asked and only if it is not running; deleting one that runs, or one that
 does not exist, is an error and changes nothing; an ID is available again after deletion.""",
 "histories schedules", "All sequences of start, signal, end, get and delete requests for two IDs up to a depth, including requests that are handled at the same time.",
 "Tests go through one sequence at a time.",
 "src/procs.rs src/http.rs src/proto.rs", [("the map of processes", "src/procs.rs SharedProcs")])
prop("P15", "A signal reaches the process it is meant for, and no other",
 """A signal request for a running process delivers that signal, by number or name, exactly once to that process; for one that is unknown or no longer running, the response is an error and no signal is sent to anything.
 No signal ever goes to a pid that procstar has already waited for, whether from a request or from a shutdown.""",
 "schedules inputs", "All signal names and numbers; all interleavings of signal requests and shutdown with the end of the process and its start.",
 "Tests send a signal to a process that runs.",
 "src/procs.rs src/sig.rs src/http.rs src/proto.rs", [("kill", "src/procs.rs send_signal"), ("signal names", "src/sig.rs parse_signum")])
prop("P16", "SIGTERM and SIGINT end everything, with a grace period",
 """On SIGTERM or SIGINT, procstar sends SIGTERM once to each process that runs, waits up to 60 seconds for them to end, then sends SIGKILL to each that still runs. It goes on serving for up to 5 more seconds while processes remain that were not deleted, then exits with status 0.
 It exits as soon as there is nothing left to wait for, and none of the processes it had signaled is left running.""",
 "schedules histories", "All orders of process ends, deletions, requests and timer expiries around one shutdown, with up to three processes that ignore or obey SIGTERM.",
 "Tests shut down once or twice, with real time and one process.",
 "src/shutdown.rs src/procs.rs src/main.rs", [("signal handler task", "src/shutdown.rs install_signal_handler")])
prop("P17", "SIGQUIT kills everything at once",
 """On SIGQUIT, procstar at once sends SIGKILL to each process that runs, goes on serving for up to 5 seconds while processes remain that were not deleted, then exits with status 0.
 It exits as soon as there is nothing left to wait for, and none of the processes it had signaled is left running.""",
 "schedules histories", "All orders of process ends, deletions, requests and timer expiries around one shutdown.",
 "There is one test, with one schedule.",
 "src/shutdown.rs src/procs.rs src/main.rs", [("signal handler task", "src/shutdown.rs install_signal_handler")])
prop("P18", "SIGUSR1 ends procstar once it is idle, and no earlier",
 """After SIGUSR1, procstar refuses to start processes, whoever asks, but otherwise serves as before. It exits, with status 0, as soon as no process remains, i.e. once all have ended and been deleted; it sends no signals and does not exit before that.""",
 "schedules histories", "All orders of process ends, deletions, results requests and signals, with up to three processes.",
 "There are a few tests, each with one schedule.",
 "src/shutdown.rs src/procs.rs src/main.rs", [("idling state", "src/procs.rs check_idling"), ("signal handler task", "src/shutdown.rs")])
prop("P19", "Repeated and mixed shutdown signals still end procstar",
 """Whatever shutdown signals arrive, how often and in whatever order, each kind takes its effect, procstar never again starts processes once it has refused to, and it exits no later than the most urgent of the signals alone would make it.
 A signal during a shutdown, in particular at the moment at which it completes, neither makes procstar fail nor makes it stay.""",
 "schedules histories", "All sequences of up to three shutdown signals, at all points of a history with up to two processes, including right at procstar's start and when it is about to exit.",
 "No test sends two signals.",
 "src/shutdown.rs src/procs.rs src/main.rs", [("shutdown state", "src/procs.rs set_shutdown, wait_for_shutdown")])
prop("P20", "Procstar exits when told to by its arguments, with all results",
 """With --exit, --print or --output, procstar exits as soon as none of its processes runs any more, not before, and prints or writes the results of all that were not deleted as one JSON document; with --wait, it exits when all have been deleted, not before.
 Without any of these options it serves until it is shut down.""",
 "schedules configurations", "Combinations of the options, with zero to three processes that end in any order and at any point, and with shutdown signals.",
 "Tests run a handful of combinations, each with one schedule.",
 "src/main.rs src/argv.rs src/procs.rs src/res.rs", [("running until completion", "src/main.rs maybe_run_until_exit, maybe_run_until_idle"), ("waiting", "src/procs.rs wait_running, wait_idle")])
prop("P21", "An agent server gets every response and every event, in order",
 """While connected, an agent server gets exactly one response to each request that asks for data or fails, in the order of the requests; and, for each process, started by it or otherwise, first notice of its start, then of its end, then of its deletion, each exactly once, with a result that is true at that time (except that a process deleted before its notices are sent may have them left out, or, if its ID is in use again, made about its successor).
 The registration at the start of a connection identifies this procstar truthfully and lists exactly the processes it then has; whatever happens afterwards is notified.""",
 "schedules histories", "All interleavings of requests over the websocket and over HTTP with the ends of processes and with one another.",
 "Tests make one request at a time.",
 "src/agent.rs src/proto.rs src/procs.rs", [("connection loop", "src/agent.rs run"), ("notifications", "src/agent.rs notification_to_message, src/procs.rs NotificationSub")])
prop("P22", "A lost agent connection is restored and nothing is forgotten",
 """If the connection to the agent server fails in whatever way and at whatever point, procstar keeps its processes running and their results, connects again under the same connection ID, and serves as before; what happened
 while it was disconnected shows in its registration and in the results it gives. It sends nothing about its processes to a server that it has not registered with.""",
 "fault_sequences schedules", "Loss, close, rejection and timeouts at every phase of a connection, up to three times, combined with process starts, ends, deletions.",
 "One or two tests reconnect once.",
 "src/agent.rs src/proto.rs", [("reconnection", "src/agent.rs run"), ("processes outlive the connection", "src/procs.rs SharedProcs")])
prop("P23", "Reconnection waits and gives up as configured",
 """After a failed attempt to connect procstar waits before the next: at first for the configured initial interval, then longer by the configured factor each time but never longer than the configured maximum; a successful connection starts this over, and a lost one is first tried again at once.
 After the configured number of successive failed attempts, procstar exits with an error, and not before.""",
 "configurations fault_sequences", "Combinations of interval, factor, maximum and count, over all sequences of success and failure up to a length, in virtual time.",
 "Tests cannot wait for the intervals.",
 "src/agent.rs src/argv.rs src/main.rs", [("backoff", "src/agent.rs ConnectConfig, run"), ("options", "src/argv.rs get_connect_config")])
prop("P24", "Shutdown reaches an agent server and is never held up by it",
 """If procstar shuts down while connected, the server is told of the shutdown, after all else that happened before it. In whatever phase the connection is (connecting, handshake, registering, waiting to retry, connected), procstar exits as soon as the shutdown is otherwise complete, or a few seconds later if a connected server does not take what it is sent.""",
 "schedules fault_sequences", "Each kind of shutdown in each phase of a connection, with a server that responds, is silent, or is gone.",
 "Tests shut down when connected to a well-behaved server.",
 "src/agent.rs src/main.rs src/shutdown.rs", [("ending the connection loop", "src/agent.rs run, src/main.rs maybe_run_agent")])
prop("P25", "Every HTTP request gets an orderly response",
 """Every HTTP request, well-formed or not, gets a response with a fitting status: success for what was done, a client error for what is unknown, malformed or not allowed, with a JSON body that has the data or the error; what is not HTTP, or cut short, may just be disconnected.
 No request makes procstar fail, hang, or change anything it was not asked to, and it is served on the local interface only, on the port given.""",
 "inputs", "All combinations of methods, paths and bodies from a grammar with malformed parts, in all process states.",
 "Tests send well-formed requests and a few malformed ones.",
 "src/http.rs src/net.rs", [("routes and errors", "src/http.rs")])
prop("P26", "No message from an agent server can make procstar fail",
 """Whatever a connected server sends (unknown or malformed messages, wrong types, extreme values, odd frames), procstar neither ends nor harms its processes; it answers what it can and goes on serving this connection or a new one.""",
 "inputs histories", "Mutations of each message type at each field, ill-formed encodings, and every websocket frame type, before and after registration.",
 "No test sends malformed messages.",
 "src/agent.rs src/proto.rs", [("message handling", "src/agent.rs run, src/proto.rs handle_incoming")])
prop("P27", "Process statistics are read correctly whatever the kernel says",
 """The statistics in a process's result are those in the kernel's files about it while it runs, or just before its end, field by field, whatever the command's name and whatever values the fields have, and never those of another process that has its pid later. If the files cannot be read or are ill-formed, the statistics are absent and all else is unaffected.""",
 "inputs", "Command names with every kind of special character, boundary values of each field, truncated and unreadable files.",
 "Tests read the files of ordinary processes.",
 "src/procinfo.rs src/procs.rs", [("parsing", "src/procinfo.rs ProcStat, ProcStatm")])
prop("P28", "Bursts of events overwhelm neither procstar nor the agent server",
 """However many processes start, end and are deleted at once, however many requests come at once, and however slowly a server reads, procstar goes on, every request is answered, and a connected server ends up with the truth about each process.""",
 "schedules inputs", "Bursts of up to a few thousand events while the connection is idle, slow or blocked.",
 "Tests run a few processes at a time.",
 "src/procs.rs src/agent.rs", [("notification channel", "src/procs.rs NotificationSub")])
prop("P29", "Reported times are consistent, even when the clock is changed",
 """The start and stop times in a result are the clock's when the process was started and when its end was noticed, and never change afterwards; the elapsed time is that which actually passed in between, or until now for one still running,
 however the clock is set meanwhile.""",
 "schedules configurations", "Clock steps forward and backward, and time passing, at all points of the history of a process.",
 "Tests cannot set the clock.",
 "src/procs.rs src/res.rs", [("times", "src/procs.rs Proc::to_result, wait_for_proc")])
prop("P30", "The agent server is authenticated as configured",
 """Procstar connects to an agent server only by TLS, to the host and port configured, and trusts only certificates that the system does or that are in the file named by PROCSTAR_AGENT_CERT, without which, if it is named but unusable, it does not connect at all;
 it sends the token from PROCSTAR_AGENT_TOKEN in the registration, and nothing else carries it.""",
 "configurations", "Combinations of hosts, ports, certificate files (none, good, missing, ill-formed), tokens, and ill-formed variables, from arguments and environment, at first and after a lost connection.",
 "Tests use one configuration.",
 "src/agent.rs src/proto.rs src/argv.rs", [("TLS setup", "src/agent.rs"), ("host and token", "src/proto.rs expand_hostname, get_access_token")])
prop("Q01", "The Python agent server admits only agents that register with its token",
 """The Python agent server (procstar.agent) listens where and with the certificate and token that its arguments, or the environment, say. A connection is answered and counted as an agent's only if its first message, in time, is a well-formed registration with exactly the server's token;
 from any other one it takes nothing, announces nothing, and it closes it, leaving the other agents alone.""",
 "inputs schedules configurations", "Every kind of first message (forms, types, tokens, positions in time), followed by more messages or by losses; impostors of registered agents; every combination of listening options.",
 "Tests register with one right and one wrong token.",
 "python/procstar/agent/server.py python/procstar/proto.py python/procstar/agent/conn.py", [("admission", "python/procstar/agent/server.py Server._serve_connection"), ("decoding", "python/procstar/proto.py deserialize_message")])
prop("Q02", "The Python registry of connections is true to what agents do",
 """Server.connections has exactly the agents that registered, open while they are connected, each one the same object across its connections, until it has shut down or stayed away for the reconnect timeout. An agent that connects again replaces its
 own connection, however and whenever the earlier one ends, and an ID that is in use by another group is refused without effect; subscribers are told each change, in order.""",
 "schedules histories", "All orders of registrations, losses of every kind (clean, reset, half-open, garbage), returns, shutdowns and time passing, of up to three agents.",
 "Tests connect one or two agents, with generous pauses.",
 "python/procstar/agent/server.py python/procstar/agent/conn.py python/procstar/lib/asyn.py", [("registry", "python/procstar/agent/conn.py Connections"), ("end of a connection", "python/procstar/agent/server.py Server._serve_connection")])
prop("Q03", "A lost agent's processes are kept for the reconnect timeout, no more or less",
 """If a connection is lost (not shut down), the agent and its processes are kept for the reconnect timeout: if it returns in time, all goes on as if nothing had happened, in the same objects; if not, then at that time, the agent
 is removed and each of its processes reports ConnectionTimeoutError to whoever waits for it. Each loss starts the time anew; other agents are not affected, and an agent that returns later can be used like a new one.
 An agent that has shut down is removed at once, with its own processes only.""",
 "schedules histories", "Losses of every kind and returns before, at and after the timeout, repeatedly, with waiters that come before or later, and connections replaced before their loss is noticed.",
 "Tests cannot afford to wait for timeouts, nor hit them exactly.",
 "python/procstar/agent/conn.py python/procstar/agent/server.py python/procstar/agent/proc.py", [("reconnect timeout", "python/procstar/agent/conn.py Connection.set_reconnect_timeout"), ("dead processes", "python/procstar/agent/proc.py Processes")])
prop("Q04", "A Python start request goes to a usable agent of its group, waiting for one",
 """request_start() and start() send the spec once, to one agent of the group given that is connected and not shutting down, any of which may be chosen. If there is none, they wait for one to come, as long as given,
 and then fail with NoOpenConnectionInGroup, not before and not after, nothing having been sent; likewise reconnect() waits for its connection.""",
 "schedules histories", "Agents of two groups in every state (connected, lost, idling, shut down) that change while requests wait, with every timeout, and every random choice.",
 "Tests have one agent and one or two requests.",
 "python/procstar/agent/conn.py python/procstar/agent/server.py", [("choice", "python/procstar/agent/conn.py Connections.choose_connection"), ("start", "python/procstar/agent/server.py Server.request_start")])
prop("Q05", "A Python process's updates are those its agent sent, all and in order",
 """Iterating over a process's updates gives each result and each piece of fd data about it that its agent sent, unchanged, in order and once, wherever the iteration starts or resumes, also after waits that timed out, and those of no other process; it ends when the process is deleted and raises
 ProcessUnknownError if the agent does not know it. Each result tells which agent it is from.""",
 "schedules inputs histories", "Scripts of messages about several processes of two agents, interleaved in all ways with the users' calls; all contents; waits with timeouts and cancellation at all points; lost connections in between.",
 "Tests consume one process's updates, promptly.",
 "python/procstar/agent/proc.py python/procstar/agent/server.py python/procstar/proto.py", [("updates", "python/procstar/agent/proc.py Process"), ("dispatch", "python/procstar/agent/proc.py Processes.on_message")])
prop("Q06", "Concurrent Python requests have their effect and disturb nothing else",
 """Each of a process's requests (start, delete, result, fd data, signal) in Python either has its effect or raises an error that is due, and returns: delete() when the process is deleted, start() with the initial result. However they
 coincide with one another, with updates being read, and with the connection becoming slow or lost, they disturb neither the connection nor other processes, and afterwards the server's processes are the agent's.""",
 "schedules fault_sequences", "All pairs and some triples of requests about one process, with the agent's answers and losses in between; starts with IDs in use, with bad specs, on agents that are slow, lost or away.",
 "Tests issue requests one by one.",
 "python/procstar/agent/proc.py python/procstar/agent/server.py python/procstar/agent/conn.py", [("requests", "python/procstar/agent/proc.py Process"), ("start", "python/procstar/agent/server.py Server.start"), ("send", "python/procstar/agent/conn.py Connection.send")])
prop("Q07", "Reconnection brings the Python server up to date about every process",
 """After an agent registers, again or with a new server, Server.processes has exactly its processes: those that are still there go on as the same objects with their current results, those that ended, were deleted or came meanwhile are known as such,
 and whoever waits for one that is gone is told. Other agents' processes are untouched, and the connection is fit for further requests.""",
 "histories schedules", "Up to three processes with all combinations of what happens to them while away (run, end, deleted, new, ID reused), every kind of loss, updates read or not, and further deletions, ends and losses during the reconciliation.",
 "Tests reconnect with one process.",
 "python/procstar/agent/server.py python/procstar/agent/proc.py", [("registration", "python/procstar/agent/server.py Server._serve_connection"), ("processes", "python/procstar/agent/proc.py Processes")])
prop("Q08", "A bad message from an agent harms only that agent's connection, if that",
 """Whatever an agent sends after it has registered (unknown or malformed messages, wrong types, odd websocket frames), the Python server goes on: other agents, their processes and this agent's known processes are unaffected,
 its connection goes on or is closed and can be made again, and well-formed messages that were not expected (about unknown processes, say) are taken for what they say.""",
 "inputs", "Mutations of every message type at every field, ill-formed encodings and every kind of websocket frame, before and after well-formed messages.",
 "No test sends malformed messages.",
 "python/procstar/agent/server.py python/procstar/proto.py python/procstar/agent/proc.py", [("message loop", "python/procstar/agent/server.py Server._serve_connection"), ("decoding", "python/procstar/proto.py deserialize_message")])

#---- Both ends.
prop("E01", "The Python server and procstar together agree on all processes and results",
 """With procstar connected to a Python agent server, each call of the server has its effect on procstar, and whatever happens to processes there is seen by the Python end unaltered and in order;
 once all messages have arrived both ends know the same processes, also after lost connections, restarts of the server, IDs that both sides use, and failed starts.
 When procstar shuts down, the Python end refuses new processes for it, forgets its connection in the end, and ends the updates of all its processes.""",
 "inputs schedules histories faults", "All sequences of Python calls, HTTP requests, process events, message deliveries in either direction and connection losses of the scenarios, up to a bounded number of deviations; all kinds of captured output, ends of processes and data intervals.",
 "The integration tests run both ends only along a few undisturbed paths, with real time.",
 "python/procstar/agent/server.py python/procstar/agent/proc.py python/procstar/agent/conn.py src/agent.rs src/procs.rs src/proto.rs",
 [("server", "python/procstar/agent/server.py Server"), ("processes", "python/procstar/agent/proc.py Processes"), ("agent", "src/agent.rs run"), ("messages", "src/proto.rs, python/procstar/proto.py")])
prop("E02", "Specs built with the Python library start the process they describe",
 """A process spec built with make_proc(), Proc, Proc.Env or any Proc.Fd class, and started through the Python agent server, the Python HTTP client or to_jso(), makes procstar execute exactly the described command,
 with exactly the described environment and file descriptors (shell command or argv, inherited and set variables, each fd kind with its options, captures of each mode, pipes between processes), and the described captures appear in its result. Options that mean nothing are refused with ValueError.""",
 "inputs", "All fd builders with all their options on all kinds of fd keys, all combinations of several environment variables set, unset or inherited, several forms of command, pipes; each by each route.",
 "Tests use make_proc with few options.",
 "python/procstar/spec.py src/spec.rs src/procs.rs src/fd.rs", [("builders", "python/procstar/spec.py Proc, make_proc, to_jso"), ("spec", "src/spec.rs Input")])
prop("E03", "The Python HTTP client does what it says and reports the truth",
 """Each call of the Python HTTP client (get_procs, get_proc, start_proc, delete_proc, send_signal, get_output_data, and Client.get_procs) has exactly its effect on the procstar that it addresses, for any process ID, fd and signal,
 and returns the true state or output at that time (bytes, or text if captured as text); if the request cannot be met it raises an HTTP error and changes nothing.""",
 "inputs histories", "All interleavings of two clients' calls with the processes' own events in the scenario, up to a bounded number of deviations; 25 unusual process IDs; all kinds of captures and outputs; all signal numbers and several names.",
 "Tests call some of the methods once, with IDs that are UUIDs.",
 "python/procstar/http/client.py src/http.rs", [("client", "python/procstar/http/client.py AsyncClient, Client"), ("service", "src/http.rs")])
