#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))
H = "hydra/src/"

p("C01", "An exit signal acts exactly as its reason, origin and trap flag dictate",
  "An exit signal sent to a live process with reason kill always terminates it with reason kill; a normal or ignore signal terminates only the sender itself and otherwise is delivered as a message when exits are trapped and dropped when not; any other reason terminates unless the target traps exits and is not the sender, in which case it becomes one message naming sender and reason. A signal arriving through a link becomes one message when exits are trapped, is ignored when the reason is normal, and otherwise terminates the linked process with the same reason. The first signal that terminates a process decides its exit reason. The same rules apply whether the signal was raised locally or arrived from another node.",
  ["inputs", "schedules"], "every exit reason, every sender/target pair, every trap-exit setting, local or remote origin",
  "Tests exercise a handful of reason/flag pairs on local processes; the rule is a decision table over reason x flag x origin and no remote case is tested.",
  [H+"process_registry.rs", H+"process.rs", H+"node_registry.rs", H+"node_remote.rs"],
  [("exit decision under the registration's lock", H+"process_registry.rs process_exit / process_exit_signal_linked"), ("Process::exit local/remote split", H+"process.rs")],
  [("registration.exit_reason / handle", "recorded reason and task handle aborted", H+"process_registration.rs")], ["Process::exit", "link exit"])

p("C02", "A terminated process is fully removed and everyone watching it is told why",
  "When a process ends for any cause it disappears from the process table, its registered name becomes free, every process linked to it receives one exit signal and every process monitoring it receives one down message, all carrying the actual exit reason (normal if none was recorded). Its own monitors, links and aliases are torn down, so it never appears as a monitor or alias target afterwards. The process leaves the table before any of those notifications are sent.",
  ["schedules", "crash_points", "histories"], "every way a process can end (return, panic, exit signal, abort), every set of links, monitors, names and aliases it held",
  "Cleanup runs in a destructor on every exit path and over arbitrary sets of links/monitors; tests only cover one link or monitor at a time.",
  [H+"process.rs", H+"link.rs", H+"monitor.rs", H+"alias.rs"],
  [("Drop for Process", H+"process.rs"), ("link_process_down", H+"link.rs"), ("monitor_process_down / monitor_destroy_all", H+"monitor.rs")],
  [("process table, names, links, monitors, aliases", "per-process global state", H+"process_registry.rs, link.rs, monitor.rs, alias.rs")], ["whereis, list, links, monitors"])

p("C03", "Spawning yields a registered, isolated process with links and monitors in place",
  "Each spawn creates a new process with an identifier never used before; it is present in the process table before its body can finish, and when linked or monitored spawning was asked for, the link (in both directions) or monitor is in place before the body can run. A panic in the body ends only that process and becomes its exit reason (the panic text) unless a signal had ended it first; a body that returns ends it normally. Spawning without link or monitor creates neither.",
  ["schedules", "inputs"], "every interleaving of the spawner with the spawned body, every body outcome",
  "The races between the new task and the spawner, and the panic path, need particular schedules that the single-threaded tests never produce.",
  [H+"process.rs", H+"catch_unwind.rs"],
  [("spawn_internal ordering", H+"process.rs"), ("AsyncCatchUnwind", H+"catch_unwind.rs")], [("ID counter", "next process id", H+"process.rs")], ["Process::spawn*"])

p("C04", "Links are symmetric: both ends are joined, both ends are released",
  "After linking, whichever of two live processes ends first the other receives its exit signal, and linking to a process that does not exist (or whose node is unknown) delivers a noproc (or noconnection) exit signal to the caller instead, decided atomically with that process's termination. After unlinking, neither end receives exit signals from the other. Linking or unlinking oneself does nothing, and a link to a remote process is recorded on this node and requested from the remote one, with unlink undoing both; a link that could not be made or has ended is no longer listed.",
  ["schedules", "histories"], "every pair of processes, local or remote, and every interleaving of link/unlink with termination",
  "Tests check one direction of a local link; the reverse direction after unlink, remote ends and the link/termination race are not reached.",
  [H+"link.rs", H+"process.rs", H+"node_remote.rs"],
  [("link_install / link_destroy / link_create", H+"link.rs"), ("existence check under the table lock", H+"process_registry.rs process_exists_lock")], [("LINKS", "pid -> linked pids", H+"link.rs")], ["Process::link, unlink, spawn_link"])

p("C05", "Each monitor yields at most one down message, with right identity and reason",
  "Monitoring a live process produces exactly one down message naming the monitored destination, the monitor's own reference and the exit reason once it ends; monitoring one that does not exist produces a noproc (or noconnection) down message at once, decided atomically with that process's termination. After demonitor returns no down message for that reference is ever received, whether or not it was already queued, and the monitor is withdrawn where it was recorded, locally or remotely. A remote name given up before it was resolved is withdrawn there as soon as it is. A monitor's associated alias ends when the down message is issued or on demonitor, and monitoring oneself or an alias is refused.",
  ["schedules", "histories", "inputs"], "every destination form (pid, name, remote), every interleaving of termination, demonitor and receive",
  "The tests cover local live/dead targets; named, remote, already-queued and concurrent-termination cases depend on schedule and network.",
  [H+"monitor.rs", H+"process.rs", H+"process_receiver.rs", H+"node_remote.rs"],
  [("monitor_install/_destroy/_process_down", H+"monitor.rs"), ("mailbox filtering by the process's monitor set", H+"process_receiver.rs")], [("MONITORS / Process.monitors", "who watches whom", H+"monitor.rs, process.rs")], ["Process::monitor, demonitor"])

p("C06", "The name registry is a consistent one-to-one map of live local processes",
  "Registering succeeds only for a live local process that has no name, under a name nobody holds (re-registering the same pair succeeds and changes nothing); every refusal leaves both directions of the mapping unchanged. Lookup of a name yields the process that registered it until it is unregistered or that process ends, and unregistering clears both directions. A process ending never frees a name that by then belongs to another process.",
  ["schedules", "histories", "inputs"], "every sequence and interleaving of register, unregister, lookup and termination",
  "No test touches registration; consistency of the two maps under interleavings cannot be sampled.",
  [H+"process_registry.rs", H+"process.rs"],
  [("entry-locked registration", H+"process_registry.rs process_register/process_unregister"), ("name removal on death", H+"process.rs Drop")], [("PROCESS_NAMES / registration.name", "name -> id and id -> name", H+"process_registry.rs")], ["Process::register, whereis"])

p("C07", "Aliases deliver only while active; one-shot aliases deliver once",
  "A message sent to an alias reaches its owner if and only if the alias is active; an alias created as one-shot is deactivated atomically by the first message sent over it and its owner's bookkeeping is informed. Deactivating an alias reports true only if it was active and belonged to the caller, and a process cannot deactivate another's alias. All of a process's aliases become inactive when it ends.",
  ["schedules", "histories"], "every interleaving of sends, unalias and termination, over local and remote senders",
  "Aliases are untested; at-most-once delivery under concurrent senders cannot be sampled.",
  [H+"alias.rs", H+"process.rs", H+"process_kernel.rs", H+"node_registry.rs"],
  [("alias_retrieve remove_if", H+"alias.rs"), ("alias/unalias", H+"process.rs")], [("ALIASES", "reference id -> owner sender", H+"alias.rs")], ["Process::alias, unalias, send to Reference"])

p("C08", "Selective receive takes the first match and loses or reorders nothing else",
  "Receiving with a filter returns the earliest mailbox message of the requested type that satisfies the filter, and every other message stays in the mailbox in arrival order; removal with a filter takes out exactly the matching ones. A message of another type is left for later receives, except that strict receivers panic on it. Messages already looked at are always considered before newly arrived ones, and internal bookkeeping items are applied once and never shown to the user.",
  ["inputs", "histories", "schedules"], "every mailbox content, every filter, any mix of types, local and serialised messages",
  "Order and loss freedom quantify over all mailbox contents; the tests receive one or two messages of one type.",
  [H+"process_receiver.rs", H+"process.rs"],
  [("ProcessReceiver::select/remove", H+"process_receiver.rs"), ("process_item/convert_item", H+"process_receiver.rs")], [("Process.items / receiver", "saved and incoming mailbox items", H+"process.rs")], ["Process::receive, receiver()"])

p("C09", "A sent message goes once to each addressed destination and nowhere else",
  "Sending to one destination or a list delivers the message exactly once to every live local process, registered name or active alias addressed, and for remote destinations hands exactly one frame per remote node carrying exactly the pids, names and aliases addressed there. Unknown or dead local destinations are skipped without affecting the others. A frame received from another node delivers its payload once to each local pid, name and alias it lists.",
  ["inputs", "configurations"], "every destination form and every mixed list of local and remote destinations",
  "Tests send to single local pids only; lists, names, aliases and remote grouping are not exercised.",
  [H+"process_kernel.rs", H+"dest.rs", H+"frame/send.rs", H+"node_registry.rs", H+"node_remote.rs"],
  [("process_send fan-out", H+"process_kernel.rs"), ("Send frame targets", H+"frame/send.rs"), ("Dest/Dests conversions", H+"dest.rs")], (), ["Process::send"])

p("C10", "A timer fires once after its delay unless cancelled, and leaves no residue",
  "A delayed send waits for the requested duration, whatever its length, and then delivers the message exactly once to the destinations given, after which its reference no longer names a timer. Cancelling removes the timer and stops a pending delivery. Reading a timer reports the remaining time to the recorded deadline, zero when that has passed, and nothing once it fired or was cancelled.",
  ["schedules", "inputs"], "every duration (zero included) and every interleaving of firing, cancel and read",
  "No test uses timers; the fire/cancel/registration race is schedule dependent.",
  [H+"process.rs", H+"process_registry.rs", H+"gen_server.rs"],
  [("send_after / cancel_timer / read_timer", H+"process.rs")], [("PROCESS_TIMERS", "reference -> deadline, task", H+"process_registry.rs")], ["Process::send_after"])

p("C11", "A server call returns its own reply, the server's death, or a timeout",
  "A call sends one request tagged with a fresh monitor reference and returns only the reply bearing that tag, the down reason of that server, or a timeout (five seconds unless given); on every outcome the monitor is gone, and after a timeout a late reply is discarded. A reply goes to the caller's pid, or over the one-shot alias when the call was remote, carrying the caller's tag. Stopping a server monitors it, asks it to stop with the reason, and succeeds only if it ended with that reason, reporting the other reason or a timeout otherwise.",
  ["schedules", "histories", "inputs"], "every order of reply, death and timeout; any other messages in the caller's mailbox; local and remote servers",
  "Cross-talk, late replies and death-versus-reply races need specific schedules; no test covers call or stop.",
  [H+"gen_server.rs", H+"from.rs"],
  [("GenServer::call/reply/stop/cast", H+"gen_server.rs")], (), ["GenServer::call, stop, cast, reply"])

p("C12", "A server's lifecycle callbacks run in order and failures reach the starter",
  "Starting a server reports success only after init succeeded; a taken name, an init error, an init timeout or a crash is reported to the starter as already_started, the error, timeout or unknown, and the server process then ends without handling messages. A running server handles one message at a time with the callback for its kind, replies when a call handler returns a value, and when a handler fails, a stop request arrives or its linked parent exits, it runs terminate exactly once with that reason and then exits with the same reason. Exit signals from others and stray replies are passed to the info handler.",
  ["inputs", "histories", "schedules"], "every message kind, every handler outcome, every parent/start option",
  "Behaviour is a state machine over message kinds x handler results; no test runs a server.",
  [H+"gen_server.rs"], [("start_gen_server loop", H+"gen_server.rs")], (), ["GenServer::start, start_link, terminate"])

p("C13", "Stopping a child follows its shutdown policy and always ends in its death",
  "Terminating a child monitors it and then, under brutal kill sends kill, under a timeout sends shutdown and escalates to kill when the time is up, and under infinity sends shutdown and waits; it returns only after that child's down message arrived. Afterwards the child is unlinked and any exit message it left in the mailbox is removed, so it is never mistaken for a crash. A child without an explicit policy gets five seconds if a worker and infinity if a supervisor.",
  ["schedules", "inputs"], "every policy and every order of exit, down message and timeout",
  "Escalation and flushing depend on timing; no test shuts a child down.",
  [H+"shutdown.rs", H+"supervisor.rs", H+"child_spec.rs"], [("shutdown_* and unlink_flush", H+"shutdown.rs"), ("SupervisedChild::shutdown", H+"supervisor.rs")], (), ["Supervisor, Registry"])

p("C14", "A supervisor restarts exactly the children its policy and strategy name",
  "When a supervised child exits, a permanent child is restarted, a transient one only if its reason is neither normal nor shutdown, and a temporary one never; exits of unknown processes change nothing. One-for-one restarts that child alone; rest-for-one first terminates the children started after it and then starts it and them in order; one-for-all does so with every child; temporary siblings terminated that way are removed, not restarted. A restart that fails is retried by a later message for the failing child, and a child not restarted is removed from the supervisor.",
  ["inputs", "histories", "fault_sequences"], "every child list, exited child, reason, restart type, strategy and start failure",
  "The decision is a table over type x reason x strategy and arbitrary child lists; supervisors are untested.",
  [H+"supervisor.rs"], [("restart_exited_child / restart / restart_multiple_children", H+"supervisor.rs")], [("children", "ordered child list", H+"supervisor.rs")], ["Supervisor"])

p("C15", "A supervisor gives up exactly when its restart intensity is exceeded",
  "Every restart attempt is counted once, only restarts within the configured window before it count with it, and when their number exceeds the configured maximum the supervisor ends with reason shutdown instead of restarting; otherwise it restarts. Exits that need no restart are not counted. Any configured window, however long, is handled without failing.",
  ["histories", "inputs"], "every sequence of restarts and every maximum and window",
  "Counts over histories in time; no test restarts anything.",
  [H+"supervisor.rs"], [("add_restart and its callers", H+"supervisor.rs")], [("restarts", "instants of recent restarts", H+"supervisor.rs")], ["Supervisor::max_restarts, max_duration"])

p("C16", "A supervisor starts in order, stops in reverse, and honours auto-shutdown",
  "Starting starts the children in order, and if one fails to start, all already started are terminated in reverse order and the supervisor fails with failed_to_start_child. A supervisor that ends terminates every running child, last first, each under its own shutdown policy. With auto-shutdown, the supervisor ends with shutdown when any significant child (or, in the all mode, the last running significant child) exits without being restarted, and never otherwise.",
  ["inputs", "fault_sequences"], "every child list, every start outcome, every auto-shutdown mode",
  "Order and totality over arbitrary child lists; supervisors are untested.",
  [H+"supervisor.rs"], [("start_children/terminate_children/init_children/check_auto_shutdown", H+"supervisor.rs")], (), ["Supervisor::start"])

p("C17", "Supervisor child management keeps one consistent record per child",
  "Adding a child whose id is running or present is refused with already-started or already-present; otherwise it is started and recorded, start failures are reported, and a temporary child that declines to start is forgotten entirely. Terminate, restart and delete act only on the child with that id, answer not-found for an unknown one, and restart and delete are refused with running or restarting while it runs or awaits a retry; termination cancels a pending retry and forgets a temporary child. The id set always equals the ids in the child list, and counts and listings report that list faithfully.",
  ["histories", "inputs"], "every sequence of management calls interleaved with exits",
  "Consistency over histories of operations; no test calls them.",
  [H+"supervisor.rs"], [("start_new_child, *_by_id, remove_child, count/which", H+"supervisor.rs")], [("children / identifiers", "child list and id set", H+"supervisor.rs")], ["Supervisor::start_child, terminate_child, restart_child, delete_child"])

p("C18", "A process registry maps each key to at most the live process started for it",
  "Looking up, starting, stopping or removing by key acts only on the process recorded for that key in the registry of that name (the one its options give, if any): start refuses with already-started when one exists, start failures and a missing start function are reported as errors, stop asks that process to shut down and forgets it, remove forgets it without stopping it, and unknown keys yield not-found or nothing. When a registered process exits its key is freed, unless the key by then belongs to another process. When the registry ends all its processes are stopped by its shutdown policy and its table disappears, and a registry that failed to start or was never started leaves a running one with the same name untouched.",
  ["histories", "schedules", "inputs"], "every sequence of operations, exits and registry lifetimes, local fast path and server path alike",
  "Registries are untested; consistency of table and reverse map spans histories.",
  [H+"registry.rs"], [("server-side operations and Drop", H+"registry.rs"), ("local fast paths", H+"registry.rs")], [("REGISTRY / lookup", "key -> pid and pid -> key", H+"registry.rs")], ["Registry::*"])

p("C19", "A node connection is used only after the peer proved it holds the same cookie",
  "No frame from a connection is acted on, no registration made and no handshake accepted until the peer's hello has been received within the handshake timeout and its challenge verified against this node's cookie; a missing, malformed or mismatching hello ends the connection. The proof covers the peer's name, its address and a fresh random challenge, and the verification uses the local cookie for exactly those fields. An outgoing connection additionally requires the peer to be the node it was meant to reach.",
  ["inputs", "fault_sequences"], "every byte sequence a peer may send, on incoming and outgoing connections",
  "An adversarial peer is a universal quantifier; no test opens a connection.",
  [H+"node_remote.rs", H+"frame/hello.rs", H+"node_registry.rs", H+"node.rs"], [("Hello::validate before supervision", H+"node_remote.rs, frame/hello.rs")], [("NODE_COOKIE", "shared secret", H+"node_registry.rs")], ["Node::start, connect"])

p("C20", "Frames for a node are queued until connected, then sent in order, each once",
  "A frame addressed to a registered node is sent to its connection if one is up, queued if the connection is pending, and dropped only when the node is unknown or merely known (no connection up or being made); when the connection comes up everything queued is sent first, in order, before any later frame, atomically with concurrent senders. Registering a node that is already known reuses its identity, and only one connection per node is ever installed. A queue is discarded when its node goes away.",
  ["schedules", "histories"], "every interleaving of senders with connection establishment and loss",
  "The hand-over race between queueing and direct sending is schedule dependent and untested.",
  [H+"node_registry.rs", H+"node_remote.rs"], [("node_register / node_register_workers / node_send_frame", H+"node_registry.rs")], [("NODE_REGISTRATIONS / NODE_PENDING_MESSAGES", "connection and queued frames per node", H+"node_registry.rs")], ["Process::send to remote"])

p("C21", "Every frame kind received from a node has exactly its local effect",
  "Exit, link, unlink, link-down, monitor, demonitor, monitor-down, monitor-update and send frames each perform locally exactly what the corresponding local operation would for the listed processes, attributing the origin to a process of the sending node. Frames naming processes that no longer exist are answered (noproc) or ignored, never applied to others, and pings are answered with pongs. What one side writes into a frame for an operation is what the other side reads for it.",
  ["inputs", "histories"], "every frame a peer can send, in any state",
  "No test sends a frame; effects range over all frames and local states.",
  [H+"node_remote.rs", H+"frame/*.rs", H+"link.rs", H+"monitor.rs"], [("frame dispatch in node_remote_supervisor", H+"node_remote.rs")], (), ["distributed link/monitor/exit"])

p("C22", "Losing a node signals noconnection to everyone depending on it",
  "When a connected node is lost, for whatever cause, every local process linked to a process there gets a noconnection exit signal, every local monitor of a process there gets a noconnection down message, and every monitor of the node itself gets a node-down message, each exactly once. The node's link, monitor and pending-frame records are then gone. Disconnecting, forgetting or stopping the local node does not lose these signals.",
  ["fault_sequences", "schedules"], "every set of links and monitors to a node and every way it is lost",
  "Node loss is a fault no test injects.",
  [H+"node_registry.rs", H+"node_remote.rs", H+"node_local.rs"], [("node_remote_supervisor_down / node_process_*_down", H+"node_registry.rs")], [("NODE_LINKS / NODE_MONITORS", "per-node dependants", H+"node_registry.rs")], ["Node::monitor, noconnection"])

p("C23", "Identities survive the wire; frames are encoded and decoded symmetrically",
  "A pid or reference sent to another node is received there as the same process or reference on the sender's node, one that belongs to the receiver comes back as local, and one of an unknown node never aliases a local one. Every frame written is length-prefixed and decoded back as the same kind, an incomplete buffer waits for more bytes without consuming any, and a corrupt complete frame ends the connection with an error rather than stalling. Serialisable enums and messages use matching writer and reader.",
  ["inputs", "configurations"], "every pid, reference and node, every frame and every split of the byte stream",
  "Round trips over all values and stream splits are not tested at all.",
  [H+"pid.rs", H+"reference.rs", H+"node.rs", H+"frame/mod.rs", H+"serialize.rs"], [("Serialize/Deserialize impls", H+"pid.rs, reference.rs, node.rs"), ("Codec", H+"frame/mod.rs")], (), ["wire format"])

p("C24", "Library locks are taken in one global order and never held across waits",
  "No thread can wait for itself or another in a cycle through the library's shared tables: nested acquisitions always follow one global order, no table is re-entered while one of its entries is held, and no lock or table guard is held across an await point. User-supplied callbacks are never run while a guard of the process, link, monitor, alias or node tables is held.",
  ["schedules", "programs"], "every thread interleaving and every call path of the library",
  "Deadlock freedom quantifies over schedules and call paths; tests run single scenarios.",
  [H+"*.rs", "hydra-websockets/src/*.rs"], [("nesting of DashMap guards, entries, alter closures and mutexes", H+"node_registry.rs, process_registry.rs, link.rs, monitor.rs")], (), ["whole library"])

p("C25", "The hash ring stays sorted, atomic and override-first under all operations",
  "Adding or replacing nodes leaves exactly one entry per key in sorted order, keeps every other node and returns the replaced one; removing takes out exactly that key; setting replaces the whole ring; clearing empties nodes and overrides. Concurrent updates never lose one another, and readers see either the old or the new ring. A lookup returns the override for the key if there is one, else the first node at or after the key's hash, wrapping to the first node, and nothing on an empty ring.",
  ["histories", "schedules", "inputs"], "every sequence and interleaving of updates and lookups",
  "Four tests use fixed keys from one thread; sorting, wrap-around and lost updates quantify over histories and schedules.",
  [H+"hash_ring.rs"], [("copy-on-write under ring_lock", H+"hash_ring.rs"), ("binary search lookup", H+"hash_ring.rs map_node")], [("ring / overrides", "sorted nodes; exact-key overrides", H+"hash_ring.rs")], ["HashRing::*"])

p("C26", "An application runs until its root ends and shuts down gracefully on a signal",
  "Running an application starts its root process from a process that traps exits, and returns when that process exits or fails to start. With graceful shutdown a termination signal asks the root to shut down and, if it has not ended within the configured time, kills it; other processes' exits do not end the application. The test runner fails unless the root ends with normal or shutdown.",
  ["schedules", "inputs", "fault_sequences"], "every root outcome and every order of signal, exit and timeout",
  "Signals and root failures are not tested.",
  [H+"application.rs", H+"application_config.rs"], [("Application::run/test", H+"application.rs"), ("signal_handler", H+"application.rs")], (), ["Application::run, test"])

p("C27", "A websocket handler sees every frame in order and terminates exactly once",
  "A connection is accepted only after the handler's accept agreed and with the configured limits, a refused request is answered with an error response, a failed or timed-out handshake ends it; each incoming frame and process message is handed to the handler in order, and each command it returns is carried out in order. Whatever ends the connection (peer close, error, end of stream, handler failure, a close command), terminate runs exactly once with the matching reason, nothing is handled afterwards, a peer's close is answered, and the process exits with that reason. The server accepts connections until it is stopped and ends when its listener does.",
  ["inputs", "histories", "fault_sequences"], "every frame sequence, every handler result and every way a connection ends",
  "The websocket crate has no tests.",
  ["hydra-websockets/src/websocket_handler.rs", "hydra-websockets/src/websocket_server.rs"], [("websocket_start/process loop", "hydra-websockets/src/websocket_handler.rs"), ("accept loop", "hydra-websockets/src/websocket_server.rs")], (), ["WebsocketHandler callbacks"])

p("C28", "Every option setter changes just the option it names; defaults as documented",
  "Each builder or option method stores its argument in the option it is named after and leaves all others as they were, and every constructor gives the documented defaults. Conversions into reasons, destinations, keys and server options preserve the value and select the variant for their source, and comparing a process, reference, name or node with a destination, or a node with its text or address, answers whether it is that one, either way round. Options set by the user reach the component they configure.",
  ["inputs", "configurations"], "every option type and every combination of setters",
  "No test sets options; a swapped field compiles and passes.",
  [H+"node_options.rs", H+"supervisor_options.rs", H+"gen_server_options.rs", H+"registry_options.rs", H+"application_config.rs", H+"child_spec.rs", "hydra-websockets/src/websocket_server_config.rs"], [("builder methods", "each options file")], (), ["options API"])

p("C29", "Semaphore permits and task results are never lost or substituted",
  "Acquiring requests exactly the asked number of permits from the same semaphore and holds them until the permit value is dropped; a failed try takes none. Awaiting tasks yields each task's own result in the order given or the first error, cancelling a task aborts that task and waits for it. A timeout wrapper, for any duration, yields the future's own result or a timeout error, never both.",
  ["schedules", "inputs"], "every permit count, task list and completion order",
  "Doc tests show one acquire; counts, order and errors are not sampled.",
  [H+"semaphore.rs", H+"task.rs", H+"process.rs"], [("wrappers over tokio primitives", H+"semaphore.rs, task.rs")], (), ["Semaphore, Task, Process::timeout"])

p("C30", "Keys spread evenly over the hash ring and few move when nodes change",
  "Over random keys each node owns close to its share of the ring, and adding or removing one node moves only about one share of the keys.",
  ["inputs"], "all key sets and node sets",
  "A statistical statement over the hash distribution.",
  [H+"hash_ring.rs"], [("hashing of keys", H+"hash_ring.rs hash_key")], (), ["HashRing::find_node"])

p("C31", "An idle connection is pinged and a silent one is closed, by the configured times",
  "A connection that has had nothing to send for the heartbeat interval sends a ping, and each ping received is answered; a connection from which nothing at all was received for the heartbeat timeout is ended, and every frame received, pongs included, starts that wait anew. The interval and timeout used are the ones configured for this node. When one half of a connection ends, so does the other half and the node's supervisor.",
  ["schedules", "fault_sequences"], "every pattern of frames and silence in both directions, every configured interval and timeout",
  "No test opens a connection; which wait is renewed by which event is a matter of control flow under real time.",
  [H+"node_remote.rs", H+"node_options.rs"], [("waits in the sender and receiver loops", H+"node_remote.rs node_remote_sender/node_remote_receiver")], (), ["Node connection liveness"])

p("C32", "Messages from one process to another are handed over in sending order",
  "A local send puts the message in the target's mailbox before it returns; a remote send puts its frame in the node's single queue before it returns, one worker writes that queue to the connection in order, and the receiving side applies frames one at a time in arrival order, each completely before the next. Nothing on the way starts an independent task per message, and exit and down signals take the same path as messages.",
  ["schedules", "histories"], "every history of sends between any two processes, local or remote",
  "Order over all histories and schedules cannot be sampled; tests send one or two local messages.",
  [H+"process_kernel.rs", H+"node_registry.rs", H+"node_remote.rs"],
  [("synchronous enqueue", H+"process_kernel.rs, node_registry.rs node_send_frame"), ("one sender worker and one frame loop per node", H+"node_remote.rs")], (), ["Process::send"])

p("C33", "The local node and its view of other nodes follow one consistent lifecycle",
  "A process system is a node only between a successful start and its stop: starting records name, address and supervisor once and refuses a second start, stopping clears every node record, and a dying node supervisor takes exactly its own node down. Listing by state reports exactly the nodes recorded in that state (current, known, connected, pending), connecting registers the node and starts at most one connection, disconnecting ends the connection but keeps the node known, and forgetting removes it entirely.",
  ["histories", "schedules"], "every sequence and interleaving of start, stop, connect, disconnect, forget, list and connection loss",
  "No test starts a node; the records span three tables and several processes.",
  [H+"node.rs", H+"node_registry.rs", H+"node_local.rs"],
  [("node_local_start/stop/panic, node_register, node_list", H+"node_registry.rs"), ("Node API", H+"node.rs")], [("NODE_MAP / NODE_REGISTRATIONS", "node -> id, id -> registration", H+"node_registry.rs")], ["Node::*"])

p("C34", "Introspection reports exactly what is recorded, about the process asked for",
  "Listing processes yields one local pid per process in the table, and asking about a process reports its registered name, mailbox length, trap flag, links and monitors as recorded, nothing for a process that does not exist, and works for local processes only. Alive, name and flag queries read the same records. The console server and supervisor counts and listings report the same facts unchanged, each under its own name.",
  ["inputs", "histories"], "every process state and every query",
  "No test queries process information; a swapped or stale field compiles and passes.",
  [H+"process_registry.rs", H+"process.rs", H+"console.rs", H+"link.rs", H+"monitor.rs", H+"supervisor.rs"],
  [("process_info, link_fill_info, monitor_fill_info", H+"process_registry.rs, link.rs, monitor.rs"), ("console requests", H+"console.rs")], (), ["Process::info, list", "ConsoleServer", "Supervisor::count_children"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
    with open(out, "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
    print(len(P), "properties")
