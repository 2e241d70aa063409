import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=[],observe=[],hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
H="hydra/src/"
p("C01","Local messages are delivered exactly once and in per-sender order",
 "Every message sent to a process that is alive on the local node, addressed by pid, registered name, active alias or a list of destinations, is placed in that process's mailbox exactly once (once per listed destination), with its content unchanged. Messages from one sender to one receiver are received in the order they were sent, whatever the addressing, and a message sent to a dead process, an unregistered name or an inactive alias is dropped silently and is never received by anyone else.",
 ["inputs","histories","schedules"],"all sequences and interleavings of sends with every kind of destination, receivers dying at any point",
 "The existing tests never send a message to a process other than a fixed echo; ordering, multi-destination sends and dead destinations are not exercised.",
 [H+"process_kernel.rs",H+"process_registry.rs",H+"alias.rs",H+"dest.rs"],
 [("process_send / process_send_optimal / process_send_unoptimal",H+"process_kernel.rs"),("process_sender lookup",H+"process_registry.rs"),("Dests conversions",H+"dest.rs")],
 [("mailbox","unbounded channel plus set-aside items of a process",H+"process.rs"),("names","registered name -> process",H+"process_registry.rs")],["Process::send","Process::receive","Process::receiver"])
p("C02","Selective receive takes the first match and loses nothing",
 "A receive returns the earliest message in the mailbox that matches its type and filter, leaves every other message in the mailbox in its original order, and waits if none matches; removing by filter deletes exactly the matching messages that are already there. A receive that is cancelled (for example by a timeout) before it returns consumes nothing: every message stays available to later receives, in order. A strict receive panics rather than skipping a message of another type.",
 ["inputs","histories"],"all mailbox contents, filters, message types and cancellation points",
 "No test uses selective receive, remove, or cancels a receive.",
 [H+"process_receiver.rs",H+"process_item.rs"],
 [("ProcessReceiver::select / remove / receive",H+"process_receiver.rs"),("process_item conversion",H+"process_receiver.rs")],
 [("items","messages set aside by earlier selective receives",H+"process.rs")],["Process::receiver().select","Process::receiver().remove","Process::receive","Process::timeout"])
p("C03","Exit signals and termination reasons follow the documented rules",
 "A custom-reason exit signal terminates a process that is not trapping exits with that reason and becomes exactly one Exit message (sender, reason) for one that is; a normal or ignore reason from another process never terminates the receiver (a trapping one gets the message), while any reason sent to oneself terminates; kill terminates unconditionally. A process whose function returns exits with reason normal, one that panics exits with a custom reason derived from the panic, and whatever way a process ends, exactly one final reason is reported to all of its links and monitors. From the moment a fatal signal is accepted the process is reported as not alive, and it stays so.",
 ["inputs","histories","schedules"],"all reasons x trapping flags x senders (self, other, linked), all orders of several signals",
 "Link/monitor tests only cover one panic and one return; kill, ignore, self exit, trapping and repeated signals are untested.",
 [H+"process_registry.rs",H+"process.rs",H+"exit_reason.rs",H+"catch_unwind.rs"],
 [("process_exit",H+"process_registry.rs"),("process_exit_signal_linked",H+"process_registry.rs"),("spawn_internal / Drop for Process",H+"process.rs"),("AsyncCatchUnwind",H+"catch_unwind.rs")],
 [("exit_reason","set once a process must terminate",H+"process_registration.rs")],["Process::exit","Process::alive","monitor and link messages"])
p("C04","Links are bidirectional, fire once, and unlink removes them both ways",
 "While two processes are linked, the termination of either one delivers exactly one exit signal with its reason to the other, whichever of them created the link and however often it was created; a non-trapping process is terminated by an abnormal reason and unaffected by normal, a trapping one gets exactly one Exit message. After unlink by either side neither process receives a signal from the other's later termination, and linking to a process that does not exist delivers a noproc exit signal to the caller. Links, as shown by process information, are symmetric between live processes.",
 ["histories","schedules"],"all sequences of link, unlink, spawn_link and terminations among a set of processes, any of them trapping",
 "Three link tests cover spawn_link with one panic/return; unlink, repeated links, noproc and chains are untested.",
 [H+"link.rs",H+"process.rs",H+"process_registry.rs"],
 [("link_install / link_create / link_destroy / link_process_down",H+"link.rs"),("process_exit_signal_linked",H+"process_registry.rs")],
 [("LINKS","process -> set of linked processes",H+"link.rs")],["Process::link","Process::unlink","Process::spawn_link","Process::info"])
p("C05","Every monitor reports its target's end exactly once, unless removed",
 "Each monitor (by pid, by registered name, or made by spawn_monitor) delivers exactly one down message to its owner, carrying that monitor's reference, the destination as it was given and the target's actual exit reason; several monitors on one target fire independently; monitoring something that does not exist delivers noproc at once. After demonitor returns the owner never receives that monitor's down message, even if the target had already died, and no other monitor is affected. A monitor never affects the monitored process, and disappears from its information when its owner dies.",
 ["histories","schedules"],"all sequences of monitor, demonitor, deaths and receives among a set of processes",
 "Five monitor tests cover one monitor each; demonitor, several monitors, names, owner death and races are untested.",
 [H+"monitor.rs",H+"process.rs",H+"process_receiver.rs"],
 [("monitor_install / monitor_create / monitor_destroy / monitor_process_down",H+"monitor.rs"),("Process::demonitor",H+"process.rs"),("MonitorProcessDown handling",H+"process_receiver.rs")],
 [("MONITORS","process -> reference -> (owner, dest)",H+"monitor.rs"),("monitors","the owner's active references",H+"process.rs")],["Process::monitor","Process::spawn_monitor","Process::demonitor","Process::info"])
p("C06","A registered name maps to exactly one live process",
 "At any moment a name is registered to at most one process and a process holds at most one name; registering a taken name, a dead or remote process, or a process that already holds another name fails and changes nothing, while re-registering the same pair succeeds. Lookups by name, the list of registered names, process information and sending by name all agree with the successful registrations and unregistrations so far. When a process has terminated its name is free again, and only its own name is removed.",
 ["histories","schedules"],"all sequences and interleavings of register, unregister, whereis and terminations over a set of names and processes",
 "No test registers a name.",
 [H+"process_registry.rs",H+"process.rs"],
 [("process_register / process_unregister / process_name_remove / process_name_lookup",H+"process_registry.rs"),("Drop for Process",H+"process.rs")],
 [("PROCESS_NAMES","name -> process id",H+"process_registry.rs")],["Process::register","Process::unregister","Process::whereis","Process::registered","Process::info"])
p("C07","Termination is announced after it is real, and never missed in a race",
 "When a process receives a down message, an exit signal or a link-triggered termination caused by another process, that process is already not alive, absent from the process list, and its registered name no longer resolves to it. For every interleaving of a termination with a concurrent link, monitor, register, send, alias or exit operation, the operation either takes effect before the termination (and is then notified or cleaned up) or observes a dead process (noproc, error, or drop): no notification is lost or duplicated, no name, link or monitor is left pointing at the dead process, and nothing deadlocks.",
 ["schedules"],"all interleavings, at the granularity of the shared tables' locks, of a termination with one or two concurrent operations",
 "Tests run on one thread without control of the schedule and never race an operation with a termination.",
 [H+"process.rs",H+"process_registry.rs",H+"link.rs",H+"monitor.rs",H+"alias.rs"],
 [("process_exists_lock",H+"process_registry.rs"),("Drop for Process order",H+"process.rs")],
 [],["Process::alive","Process::list","Process::whereis","Process::monitor","Process::link"])
p("C08","A spawned process is fully usable from both sides on every schedule",
 "From the moment spawn returns, and equally from the first instruction of the new process, the process is alive, listed, can be sent to, monitored, linked, registered and given flags, on every runtime and schedule; pids are never reused. With spawn_link and spawn_monitor the relation is in place before the new process runs, so even a process that ends at once produces exactly one exit signal or down message with its real reason. After a process ends it is no longer listed: none is left behind.",
 ["schedules","histories"],"all interleavings of the spawning thread with the new process on current-thread and multi-thread runtimes",
 "Tests spawn on one runtime where the new process cannot run before spawn returns.",
 [H+"process.rs",H+"process_registry.rs"],
 [("spawn_internal",H+"process.rs"),("process_insert",H+"process_registry.rs")],
 [("PROCESS_REGISTRY","process id -> registration",H+"process_registry.rs")],["Process::spawn","Process::spawn_link","Process::spawn_monitor","Process::list","Process::alive"])
p("C09","Aliases deliver to their creator only while active; reply aliases once",
 "A message sent to an active alias reaches the process that created it; after unalias, after the creator died, or after the down message of the monitor it belongs to, messages sent to it are dropped. A reply alias accepts exactly one message, even with concurrent senders, and is inactive afterwards. Unalias returns true exactly when the alias was active for the calling process, and leaves the monitor of a monitor alias active; demonitoring a monitor alias deactivates it.",
 ["histories","schedules"],"all sequences and interleavings of alias creation, sends, unalias, demonitor and terminations",
 "No test uses an alias.",
 [H+"alias.rs",H+"process.rs",H+"monitor.rs"],
 [("alias_create / alias_retrieve / alias_destroy",H+"alias.rs"),("Process::alias / unalias / monitor_alias",H+"process.rs")],
 [("ALIASES","alias -> (mailbox, reply)",H+"alias.rs")],["Process::alias","Process::unalias","Process::monitor_alias","Process::send"])
p("C10","Timers fire exactly once, not early, and never after cancellation",
 "A message scheduled with send_after is delivered to its destinations exactly once, no earlier than the given duration, in order of expiry, even if the scheduling process has died meanwhile; the destination is resolved when the timer fires. Cancelling a pending timer prevents delivery, cancelling a fired one has no effect, and neither affects other timers. Reading a timer returns a remaining time not above the duration while it is pending and nothing after it fired or was cancelled.",
 ["histories","schedules"],"all sequences of scheduling, cancelling, reading, advancing time and terminations",
 "No test uses a timer.",
 [H+"process.rs",H+"process_registry.rs"],
 [("Process::send_after / cancel_timer / read_timer",H+"process.rs"),("process_register_timer / process_destroy_timer",H+"process_registry.rs")],
 [("PROCESS_TIMERS","timer -> (deadline, task)",H+"process_registry.rs")],["Process::send_after","Process::cancel_timer","Process::read_timer"])
p("C11","A server call returns its own reply or its own failure, never a stale one",
 "A call returns the reply the server made to that very call, or a server-down error with the server's exit reason if the server ended before replying (noproc if there is none), or a timeout error no earlier than its timeout; it never returns the reply to another call. After a call has returned for any reason, its reply, its down message and its monitor are never seen by the caller again, and the caller's unrelated messages are still in its mailbox in order. Replies may be made later and from any process, and casts and calls of one client are handled in the order they were sent.",
 ["histories","schedules"],"all sequences of calls, casts, timeouts, late and foreign replies and server deaths, from several clients",
 "No test uses a GenServer.",
 [H+"gen_server.rs",H+"from.rs",H+"call_error.rs"],
 [("GenServer::call / reply / cast",H+"gen_server.rs")],[],["GenServer::call","GenServer::cast","GenServer::reply"])
p("C12","GenServer start, message handling and termination follow the contract",
 "Start returns only after init has finished: the pid if init succeeded, otherwise init's reason, already_started if the name is taken, or timeout, and then no such process remains and its name is free. The server handles its messages one at a time in mailbox order, each by exactly one callback of the matching kind. Terminate runs exactly once, with the same reason that links and monitors then see, when a callback other than init returns an error, stop is called, or a trapping server's parent exits, and no callback runs after it; stop succeeds exactly when the process ended with the requested reason.",
 ["histories","inputs"],"all callback outcomes, stop requests, exit signals, names and start timeouts",
 "No test uses a GenServer.",
 [H+"gen_server.rs",H+"gen_server_options.rs"],
 [("start_gen_server",H+"gen_server.rs"),("GenServer::stop",H+"gen_server.rs")],[],["GenServer::start","GenServer::start_link","GenServer::stop","callbacks"])
p("C13","Supervisors restart exactly the children policy and strategy name",
 "A permanent child is restarted whenever it ends, a transient one only after a reason other than normal or shutdown, a temporary one never, under every strategy. When a child is restarted, one_for_one restarts only it, one_for_all terminates all other children and starts all again, rest_for_one terminates and starts again only it and those started after it; children are always started in specification order. A restart whose start function fails is retried (counting as a further restart) until it succeeds or the restart limit is reached, and a child never has two live processes.",
 ["histories","configurations"],"all strategies, restart policies, child lists, exit reasons and start failures, and sequences of them",
 "No test uses a supervisor.",
 [H+"supervisor.rs",H+"child_spec.rs",H+"restart.rs"],
 [("restart_exited_child / restart / restart_multiple_children / try_again_restart",H+"supervisor.rs")],
 [("children","ordered child list with pid and restarting flag",H+"supervisor.rs")],["start callbacks","Supervisor::which_children","Supervisor::count_children"])
p("C14","A supervisor gives up when the restart limit is exceeded, not before",
 "A supervisor performs up to max_restarts restarts within any window of max_duration, counting every restart attempt; the attempt that exceeds the limit is not made: the supervisor terminates all its children and exits with reason shutdown. Restarts older than the window do not count. Terminations that need no restart, and explicit starts, stops and restarts through the API, never count.",
 ["histories","configurations"],"all limits, windows and timed sequences of failures",
 "No test uses a supervisor.",
 [H+"supervisor.rs"],[("add_restart",H+"supervisor.rs")],[("restarts","times of recent restarts",H+"supervisor.rs")],["Supervisor","monitors on the supervisor and its children"])
p("C15","Supervisors start in order, stop in reverse, and leave no child behind",
 "A supervisor starts its children one after another in list order, and start returns only when all have started; if one fails, those already started are terminated in reverse order and start returns the error failed_to_start_child. When a supervisor terminates orderly it stops its children in reverse start order, each before the next: brutal kill with kill, otherwise with shutdown, killing a trapping child only after its timeout. Once the supervisor has ended none of its children is alive.",
 ["histories","configurations","fault_sequences"],"all child lists, shutdown modes, trapping and slow children, start failures and reasons to stop",
 "No test uses a supervisor.",
 [H+"supervisor.rs",H+"shutdown.rs"],
 [("start_children / terminate_children / init_children",H+"supervisor.rs"),("shutdown_brutal_kill / shutdown_timeout / shutdown_infinity / unlink_flush",H+"shutdown.rs")],[],["start callbacks","child terminations","Supervisor::start_link"])
p("C16","The dynamic child API changes exactly the named child, with documented errors",
 "Starting, terminating, restarting and deleting a child by id affect only that child and return the documented result: already started or already present for an existing id, not found for an unknown one, running when it runs, restarting while a restart is pending; a terminated child is not restarted by the supervisor. A temporary child's specification is removed as soon as it terminates (or is ignored at start), so that its id can be used again; other specifications are kept until deleted. The lists and counts of children agree with these operations and with the processes actually alive.",
 ["histories"],"all sequences of child API operations and child exits",
 "No test uses a supervisor.",
 [H+"supervisor.rs"],[("start_new_child / terminate_child_by_id / restart_child_by_id / delete_child_by_id / which_children_info / count_all_children",H+"supervisor.rs")],
 [("identifiers","ids in use",H+"supervisor.rs")],["Supervisor::start_child","Supervisor::terminate_child","Supervisor::restart_child","Supervisor::delete_child","Supervisor::which_children","Supervisor::count_children"])
p("C17","Auto-shutdown happens exactly when configured significant children have exited",
 "With any_significant a supervisor shuts down as soon as one significant child exits without being restarted; with all_significant it does so when the last running significant child has exited, and not before; with never, or for a non-significant child, it keeps running. The shutdown terminates the remaining children in reverse order and the supervisor exits with reason shutdown. Only a child's own exit triggers it, not an explicit termination through the API.",
 ["histories","configurations"],"all auto-shutdown modes, sets of significant children and orders of exits",
 "No test uses a supervisor.",
 [H+"supervisor.rs",H+"shutdown.rs",H+"child_spec.rs"],[("check_auto_shutdown",H+"supervisor.rs")],[],["Supervisor","monitors on the supervisor"])
p("C18","A registry holds at most one live process per key and answers consistently",
 "For each key a registry holds at most one process: lookup_or_start returns the running one or starts exactly one, even for concurrent callers, and start_process reports already started with its pid if it is running. Lookup, count and list agree with each other and with the starts, stops, removals and exits so far, whether asked by name or through the registry process, and a process that has exited disappears from all of them while others stay. A failing start function, a missing one, and an unknown key give their specific errors and change nothing.",
 ["histories","schedules"],"all sequences and interleavings of registry operations and process exits over several keys",
 "No test uses a registry.",
 [H+"registry.rs",H+"registry_options.rs"],
 [("lookup_or_start_by_key / start_by_key / remove_process / lookup_process / register_process",H+"registry.rs")],
 [("REGISTRY","registry name -> key -> pid",H+"registry.rs"),("lookup","pid -> key",H+"registry.rs")],["Registry::lookup","Registry::lookup_or_start","Registry::start_process","Registry::count","Registry::list"])
p("C19","Stopping, removing and shutting down registry entries affect exactly those",
 "Stopping a key unregisters its process and sends it a shutdown exit signal; removing a key unregisters its process but leaves it running, unlinked from the registry. When a registry terminates, the processes still registered are shut down by its configured method and none of them outlives it, while removed ones are untouched. A second registry that fails to start because the name is taken, or an unused registry value that is dropped, does not disturb the running one.",
 ["histories","configurations"],"all sequences of stop, remove, exits and termination of registries, all shutdown methods, duplicate starts",
 "No test uses a registry.",
 [H+"registry.rs"],[("stop_by_key / remove_by_key / terminate_children / Drop for Registry",H+"registry.rs")],[],["Registry::stop_process","Registry::remove","process liveness"])
p("C20","Messages between connected nodes arrive once, in order, at the right process",
 "While two nodes stay connected, every message sent from a process on one to a pid, name or alias on the other, alone or in a list of destinations, is delivered exactly once, intact, and in per-sender order, including those queued while the connection was still being set up, however the network splits, coalesces or delays the bytes. Across a lost connection the messages received are a subsequence of those sent, without duplicates or reordering. Messages to a name or process that does not exist there are dropped without harming the connection.",
 ["schedules","inputs","fault_sequences"],"all sequences of sends before, during and after connection, message sizes, segmentations, and connection cuts",
 "The two-node examples in the repository are run by hand; no test opens a connection.",
 [H+"node_kernel.rs",H+"node_registry.rs",H+"node_remote.rs",H+"frame/mod.rs",H+"frame/send.rs"],
 [("node_send_frame / node_register_workers",H+"node_registry.rs"),("node_remote_sender / node_remote_receiver",H+"node_remote.rs"),("Codec",H+"frame/mod.rs"),("node_forward_send",H+"node_kernel.rs")],
 [("NODE_PENDING_MESSAGES","frames queued until connected",H+"node_registry.rs")],["Process::send","Process::receive"])
p("C21","Cross-node links, monitors and exit signals fire once, or noconnection",
 "A link or monitor to a process on another node fires exactly once: with the process's exit reason when it ends, noproc if it does not exist, or noconnection if the connection is lost first or cannot be made; exit signals sent to a remote process act as local ones. After demonitor or unlink, or once it has fired, it never fires again, and when its owner ends the other side forgets it. Calls to a remote server return its reply, its failure, or a timeout, and a late reply is never seen.",
 ["histories","fault_sequences","schedules"],"all sequences of remote link, monitor, demonitor, unlink, exits, process deaths and connection losses",
 "No test opens a connection.",
 [H+"monitor.rs",H+"link.rs",H+"node_registry.rs",H+"node_remote.rs",H+"gen_server.rs"],
 [("node_process_monitor_* / node_process_link_* / node_remote_supervisor_down",H+"node_registry.rs"),("node_remote_receiver",H+"node_remote.rs")],
 [("NODE_MONITORS / NODE_LINKS","per-node monitors and links",H+"node_registry.rs")],["Process::monitor","Process::link","Process::exit","GenServer::call"])
p("C22","Nodes connect only to authenticated, expected peers, and report loss once",
 "Two nodes become connected only if they share the same cookie (or both have none) and the answering node has the name and address that was asked for; a failed attempt leaves the node known but not connected and reports noconnection or node down to whoever waits on it. There is at most one connection per peer, and node lists show each peer in its current state. Each node monitor fires exactly once when its node's connection is lost, is refused or is disconnected, never after demonitor, and the node can be connected again afterwards.",
 ["configurations","fault_sequences","histories"],"all cookie combinations, wrong identities, connects, disconnects, crashes and reconnects",
 "No test opens a connection.",
 [H+"node_registry.rs",H+"node_remote.rs",H+"node_local.rs",H+"frame/hello.rs",H+"node.rs"],
 [("Hello::validate",H+"frame/hello.rs"),("node_accept / node_register / node_disconnect / node_remote_supervisor_down",H+"node_registry.rs")],
 [("NODE_REGISTRATIONS / NODE_MAP","known nodes and their state",H+"node_registry.rs")],["Node::connect","Node::disconnect","Node::list_by_state","Node::monitor"])
p("C23","Identities survive travel between nodes",
 "A pid, reference, node or destination sent to another node, back, or on to a third node keeps its identity: the receiver can use it to send, monitor, link and exit the very process it names, two copies of it compare equal, and when it returns to its own node it is local again and equal to the original. Identities of different nodes never compare equal. Within a node this also holds for messages sent to several destinations and on nodes that are not distributed.",
 ["inputs","histories"],"all kinds of identities, paths between up to three nodes, distributed and non-distributed nodes",
 "No test serializes a pid between nodes.",
 [H+"pid.rs",H+"reference.rs",H+"node.rs",H+"dest.rs",H+"serialize.rs"],
 [("Serialize/Deserialize for Pid, Reference, Node",H+"pid.rs")],[],["Process::send of a pid","comparison"])
p("C24","Silent peers are detected, idle healthy ones are kept",
 "A connection on which nothing arrives for the heartbeat timeout is declared down within a bounded time, firing its monitors and links; a connection to a healthy peer stays up indefinitely even when the application sends nothing, as long as the heartbeat interval is below the peer's timeout. A peer that connects but does not complete the handshake within the handshake timeout is dropped. The configured interval and timeouts are each honoured independently.",
 ["configurations","fault_sequences"],"all combinations of interval, heartbeat timeout and handshake timeout; peers that go silent at any point",
 "No test opens a connection.",
 [H+"node_options.rs",H+"node_remote.rs"],
 [("node_remote_sender ping / node_remote_receiver timeout",H+"node_remote.rs"),("NodeOptions setters",H+"node_options.rs")],[],["Node::monitor","Node::list_by_state"])
p("C25","The hash ring is a consistent hash with overrides",
 "The node found for a key depends only on the current set of ring nodes and overrides: an override for the key wins, otherwise it is the owner in a fixed circular order, so that adding a node only moves keys to it and removing a node only moves that node's keys. Adding a node under an existing key replaces it and returns the old one, removal returns what was there, set replaces the whole set, and clear leaves no node and no override. Concurrent updates are never lost, and concurrent lookups always see some state between them.",
 ["histories","schedules","inputs"],"all sequences and interleavings of ring operations over all keys and hash orders",
 "Four tests check fixed sequences with one key each; concurrency, clear with overrides, and key movement are not covered.",
 [H+"hash_ring.rs"],[("add_node / remove_node / add_nodes / set_nodes / map_node / overrides / clear",H+"hash_ring.rs")],
 [("ring / overrides","sorted ring and overrides",H+"hash_ring.rs")],["HashRing::find_node","HashRing::add_node","HashRing::remove_node"])
p("C26","Application run returns exactly when its root process has ended",
 "Application run returns only after the process returned by start has ended, for any reason, or when start fails, and never while that process is alive. With graceful shutdown enabled, a termination request makes the application send its root process a shutdown exit signal, and kill it if it is still alive after the configured timeout but not before; without it the signal has its default effect. Other linked or failing processes do not end the application.",
 ["fault_sequences","configurations","schedules"],"all root behaviours (ends, traps, hangs, panics, slow), signal times and timeouts",
 "Tests use the test helper once; run, signals and timeouts are never exercised.",
 [H+"application.rs",H+"application_config.rs"],[("Application::run",H+"application.rs"),("signal_handler",H+"application.rs")],[],["Application::run","process exit status"])
p("C27","Websocket handlers act on frames and commands in order and terminate once",
 "Each websocket connection is handled by its own process: frames are handled one at a time in arrival order, commands returned by a callback are executed in order before the next event, a ping is answered with a pong carrying its data, and messages sent to the process are given to the info callback. When the peer closes, the connection fails, a callback returns an error, or a close command is given, the terminate callback runs exactly once with the reason, no callback runs after it and the process exits with that reason. One connection's end never affects others or the server.",
 ["histories","fault_sequences"],"all sequences of frames, messages, commands, errors and disconnects on several connections",
 "The websocket crate has no tests.",
 ["hydra-websockets/src/websocket_handler.rs","hydra-websockets/src/websocket_server.rs","hydra-websockets/src/websocket_command.rs"],
 [("start_websocket_handler / websocket_process_commands","hydra-websockets/src/websocket_handler.rs"),("server_accept","hydra-websockets/src/websocket_server.rs")],[],["WebsocketHandler callbacks","the client's socket"])
p("C28","Semaphores never over-grant and never lose permits; tasks return their results",
 "At any time the permits held never exceed the semaphore's count, a request is granted as soon as enough permits are free (waiting requests in order), try-requests fail exactly when too few are free, and a dropped or cancelled holder or waiter, including a process that dies, gives everything back. Awaiting a task returns its value, or an error if it panicked or was shut down before finishing. Awaiting many returns all values in the order of the tasks given, or the first error.",
 ["schedules","histories"],"all interleavings of acquire, try, release, cancellation and process death; all task outcomes",
 "Two doc examples construct semaphores; nothing acquires a permit or awaits a task.",
 [H+"semaphore.rs",H+"task.rs"],[("Semaphore / OwnedSemaphore",H+"semaphore.rs"),("Task",H+"task.rs")],[],["Semaphore::acquire","Task::await_many","Task::shutdown"])
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s)
print(len(P))
