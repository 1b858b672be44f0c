R = "hydra/src/"
prop("C01", "A monitor reports the end of its target exactly once, with the true reason",
     "A process that monitors another one (by identifier, by name, or while spawning it) receives exactly one down message with the monitor's reference and the target's exit reason, whenever the target ends, however the request races with that end; a target that is already gone is reported at once as noproc. Once a monitor has been removed, its owner receives no down message for it any more, not even one that was already queued.",
     [S, H], "every interleaving of monitor, demonitor and the target's end (return, panic, exit signal, kill), up to the deviation bound, and every operation history up to the depth bound",
     "the tests monitor one process that ends long after, in one schedule; a lost or doubled notification needs the request to fall inside of the target's teardown",
     [R + "monitor.rs", R + "process.rs", R + "process_receiver.rs", R + "process_registry.rs"],
     [("existence is checked under the lock under which the target is removed", R + "process_registry.rs:process_exists_lock"), ("monitors of an ended process are taken out once", R + "monitor.rs:monitor_process_down"), ("queued down messages of removed monitors are dropped on receive", R + "process_receiver.rs:process_item")],
     ["messages received by the monitoring process"], "Histories: 3 processes, 4 operations (thorough 5). Every subset of three queued or set-aside down messages whose monitors are removed. Up to 1,100 monitors of one process (thorough 4,000).")
prop("C02", "A link delivers the end of either process to the other, unless unlinked",
     "When one of two linked processes ends, the other one is told once: it ends with the same reason if that is abnormal, or receives an exit message if it traps exits; a normal end does not take it down. That holds however linking races with either end, for links made while spawning, and transitively; linking to a process that is already gone reports noproc. After an unlink has returned, the end of the former partner has no effect.",
     [S, H], "every interleaving of link, unlink, spawn_link and the ends of both processes up to the deviation bound, and every operation history up to the depth bound",
     "the tests link, then end one process, in one schedule; a lost exit signal needs the link to be installed during the teardown",
     [R + "link.rs", R + "process.rs", R + "process_registry.rs"],
     [("existence is checked under the lock under which the partner is removed", R + "process_registry.rs:process_exists_lock"), ("links of an ended process are taken out once", R + "link.rs:link_process_down")],
     ["exit messages, liveness and exit reasons of the linked processes"], "Histories: 4 operations in quick, 5 in thorough.")
prop("C03", "Exit signals act as their reason, the trap flag and the sender say",
     "A kill signal always ends its target and cannot be trapped. Any other abnormal reason ends a target that does not trap exits, with that reason, and becomes one exit message, in order, for one that does; a normal reason from another process never ends the target, and becomes a message only if exits are trapped; any reason sent by a process to itself ends it. A process that has been ended executes no further step of its own past its next suspension, and its reason is what its monitors and links are told.",
     [S, I], "every combination of reason, trap flag and sender, and every interleaving of signals with trap-flag changes, other signals and the target's own end",
     "no test sends an exit signal that races with anything; the matrix is not sampled either",
     [R + "process_registry.rs", R + "process.rs", R + "exit_reason.rs"],
     [("exit signals are decided under the target's registration lock", R + "process_registry.rs:process_exit"), ("an ended process is aborted", R + "process_registry.rs:process_exit")],
     ["exit messages, liveness and the reason seen by monitors"], "Full matrix of reason x trap x self/other. Histories of flag changes and signals to depth 5 (thorough 6).")
prop("C04", "Mailboxes neither lose, duplicate nor reorder messages",
     "Every message sent to a live process by identifier, name, alias or list of destinations is received exactly once per destination, and messages of one sender arrive in the order in which they were sent. A selective, typed or timed-out receive takes out only the message it returns, leaves all others in order, and removes nothing else. Sending to a process that ends or is gone has no effect on the sender or on other destinations.",
     [S, H, I], "every interleaving of two senders and a receiver (also one that gives up at a deadline or ends) up to the deviation bound, and every history of sends and receives up to the depth bound against a list model",
     "no test sends concurrently, selects out of order, or gives up a receive; the losses need a wait abandoned at the moment a message arrives",
     [R + "process_kernel.rs", R + "process_receiver.rs", R + "process.rs"],
     [("one unbounded queue per process", R + "process.rs:Process"), ("set-aside messages are looked at first, in order", R + "process_receiver.rs:select")],
     ["sequence of messages returned by the receive functions"], "Histories: 9 operations to depth 5 (thorough 6). Lists of 0 to 4 destinations in 7 forms. 70,000 unread messages. Mailboxes of two messages, each of four types, two of them readable as each other, serialized or not, under every two receives that return nothing.")
prop("C05", "A registered name leads to at most one live process and is freed by its end",
     "At any time a name leads to at most one live process and a process has at most one name; of concurrent registrations of one name, or of one process, exactly one succeeds. Once a process has ended, or its name was unregistered, lookups of the name find nothing and another process can take it; that one keeps it while it lives, whatever the previous owner does.",
     [S, H], "every interleaving of register, unregister and process ends up to the deviation bound, every history up to the depth bound against a reference model",
     "no test registers concurrently or re-registers a freed name; a stale or stolen name needs the registration to fall inside of the other process's teardown",
     [R + "process_registry.rs", R + "process.rs"],
     [("name entry is held while the registration is updated", R + "process_registry.rs:process_register"), ("an ending process gives up its own name", R + "process.rs:drop")],
     ["register/unregister/whereis/registered results, delivery by name"], "Histories: 9 operations to depth 4 (thorough 6).")
prop("C06", "An alias delivers while active, and a one-shot alias delivers one message only",
     "A message sent to an alias reaches its owner exactly if the alias is active, and an alias created for one reply delivers exactly one message however many processes use it at once. Deactivating it reports whether it was still active, and nothing sent afterwards is delivered. An alias tied to a monitor stays active until the monitor reports the target's end, is removed, or the alias is used up; nothing arrives through it after that report.",
     [S, H], "every interleaving of senders, the owner, a monitored target's end and deactivation up to the deviation bound, every history up to the depth bound against a reference model",
     "no test covers aliases at all",
     [R + "alias.rs", R + "process.rs", R + "monitor.rs", R + "process_receiver.rs"],
     [("a one-shot alias is removed atomically with its use", R + "alias.rs:alias_retrieve"), ("the alias of a monitor is dropped with it", R + "monitor.rs:monitor_process_down")],
     ["messages received by the alias owner, result of unalias"], "Histories: 10 operations to depth 4 (thorough 6).")
prop("C07", "A spawned process can be addressed at once and its end leaves nothing behind",
     "From the moment a spawn returns, and from its own first step, a process can be found, sent to, monitored, linked, signalled and registered, however soon it ends. Spawning yields distinct identifiers, and the ends of processes do not affect unrelated ones. Once anybody has been told of its end, the process is not alive, not listed, and its name, timers' targets and aliases lead nowhere.",
     [S], "every interleaving of the spawner, the new process and observers up to the deviation bound, for ends by return, panic, own exit and kill",
     "the tests use processes long after they were spawned; a window between starting and registering shows only if the new task runs first",
     [R + "process.rs", R + "process_registry.rs"],
     [("registration precedes the first step", R + "process.rs:spawn_internal"), ("teardown runs on every kind of end", R + "process.rs:drop")],
     ["alive, list, whereis, info and message delivery"], "")
prop("C08", "Timers fire exactly once, not early, and not after they were cancelled",
     "A delayed message is delivered exactly once, not before its delay has passed, unless it is cancelled before that; once a cancellation has returned it is not delivered any more. The remaining time of a timer can be read while it is pending, and a timer that fired or was cancelled is gone. A bounded wait returns the result of its operation if that is ready in time and a timeout otherwise, not before the deadline.",
     [S, H], "every interleaving of setting, firing, cancelling and reading timers, including every order of clock advance and task execution up to the deviation bound, and every history up to the depth bound",
     "no test uses timers; cancel against fire is a race with the clock",
     [R + "process.rs", R + "process_registry.rs"],
     [("a timer is registered before it can fire", R + "process_registry.rs:process_register_timer"), ("cancelling takes the timer out and aborts it", R + "process_registry.rs:process_destroy_timer")],
     ["time and number of deliveries, read_timer results"], "Virtual clock.")
prop("C10", "A call returns the reply to that very call, or says truly why there is none",
     "A call to a server returns the value the server replied to exactly that call, whether it replies at once or later from another process, and whatever other callers, earlier abandoned calls and casts do. Without a reply it returns an error: a timeout not before its deadline, or that the server is down, with the reason the server ended with (also one that was gone before). A call never hangs once its server has ended or its time is up, and requests that were sent are handled by a live server exactly once, casts and calls of one sender in order.",
     [S, H], "every interleaving of callers, server, deferred replies, deadlines and the server's end up to the deviation bound, and every history of calls, casts and replies up to the depth bound",
     "the tests make one call at a time to a healthy server; mixing up replies needs an abandoned call whose answer comes later, hanging needs an end inside of the call",
     [R + "gen_server.rs", R + "process.rs", R + "alias.rs", R + "monitor.rs"],
     [("replies go to a one-shot alias bound to the call's monitor", R + "gen_server.rs:call"), ("the call gives up its monitor and alias", R + "gen_server.rs:call")],
     ["result of call, callbacks of the server"], "Histories: depth 4 (thorough 6).")
prop("C11", "A server is started exactly if its init succeeds, then handles messages in order",
     "Starting a server returns its identifier exactly if init has succeeded, with link and name in place; otherwise it returns the reason init failed with, a timeout not before the given limit, or already-registered, and no such server runs any more and its name is free or its owner's. Messages sent before init has finished are handled after it. Callbacks of one server never overlap, each message causes one callback of its kind, in the order of arrival.",
     [S, I], "every result and duration of init with and without link, trap and name, every interleaving of starters, senders and the time limit up to the deviation bound",
     "the tests start servers that succeed at once; names and limits are not covered",
     [R + "gen_server.rs", R + "gen_server_options.rs"],
     [("the starter waits for the result of init", R + "gen_server.rs:start_internal"), ("one loop receives and handles", R + "gen_server.rs:start_routine")],
     ["result of start, order of callbacks, whereis, alive"], "")
prop("C12", "A server terminates once, with the reason that ended it, and stop reports that",
     "When a callback returns an error, a stop is requested, or the parent of a server that traps exits ends, terminate is called exactly once, as the last callback, with that reason, and the server then ends with it. A stop returns once the server has ended, successfully if it ended with the given reason and otherwise with the real one, also if the server is already gone; with a limit it returns a timeout not before that. A server ended by an untrapped signal, a kill or a panic calls no terminate and ends with that reason.",
     [S, I], "every cause of end with and without trap, and every interleaving of two of them (stop and stop, stop and crash, parent's end) up to the deviation bound",
     "no test stops a server while it ends for another reason",
     [R + "gen_server.rs"],
     [("stop is a message handled in turn", R + "gen_server.rs:stop"), ("terminate precedes the exit", R + "gen_server.rs:start_routine")],
     ["callbacks, result of stop, reason seen by monitors"], "")
prop("C13", "A child is restarted exactly if its restart mode and exit reason ask for it",
     "A permanent child that ends is started again whatever the reason, a transient one only after an abnormal end, a temporary one never. If starting it again fails, that is tried until it succeeds, the supervisor gives up, or the child is terminated by request. Never do two instances of a child run at once, and a child that nothing happened to is not touched, however ends, retries and requests race.",
     [S, I], "all restart modes and ways to end twice in a row, every interleaving of ends, failing restarts and requests up to the deviation bound",
     "the tests crash one child once; failing restarts and races with requests are not covered",
     [R + "supervisor.rs", R + "restart.rs"],
     [("exit messages are matched with children by identifier", R + "supervisor.rs:restart_exited_child"), ("failed restarts are retried by a cast to itself", R + "supervisor.rs:try_again_restart")],
     ["starts and ends of children, which_children"], "")
prop("C14", "The strategy decides which siblings are restarted with an ended child, in order",
     "With one-for-one only the ended child is started again; with one-for-all all of the children; with rest-for-one the child and those started after it. The siblings concerned have all ended before the first child is started again, and the children are started in the order of their specification; temporary siblings are ended with the group and not brought back. If one of the starts fails, the group is completed by a retry. Afterwards each child runs exactly once.",
     [S, I], "all strategies, children and kinds of siblings, every interleaving with failing starts and a second ending child up to the deviation bound",
     "the tests check one strategy with well-behaved children",
     [R + "supervisor.rs"],
     [("the group is terminated, then started", R + "supervisor.rs:restart_multiple_children")],
     ["starts and ends of children in order"], "")
prop("C15", "A supervisor gives up exactly if too many restarts fall into the time frame",
     "A supervisor keeps restarting as long as at most the given number of restarts, failed attempts included, lie within the given time frame of any length; with the first one beyond that it ends all of its children and itself, with reason shutdown. Restarts that lie further back, and retries that have become moot, do not count.",
     [S, H], "every history of child ends and waits up to the depth bound for limits 0 to 3, every number of failing attempts, every interleaving up to the deviation bound",
     "the tests never reach the limit, nor use another time frame",
     [R + "supervisor.rs"],
     [("restarts are recorded and expire", R + "supervisor.rs:add_restart")],
     ["liveness and exit reason of the supervisor, running children"], "Histories: 6 restarts (thorough 8), waits of 0, 400, 700 or 1001 ms before each.")
prop("C16", "Management requests of a supervisor act and answer like their reference model",
     "Starting, terminating, restarting, deleting, listing and counting children by request gives the documented answer in every state of the child (unknown, running, stopped, waiting for a restart) and changes exactly that child: a child runs at most once and identifiers are unique; a terminated temporary child and its identifier are gone, any other one's specification stays; the list is in the order of starting and true. Requests of several clients take effect in one order.",
     [S, H], "every history of requests and child ends (also with starts that fail or are ignored) up to the depth bound, every interleaving of two clients with two requests each up to the deviation bound",
     "the tests use no management request but count",
     [R + "supervisor.rs", R + "child_spec.rs"],
     [("identifiers are kept unique", R + "supervisor.rs:start_new_child"), ("requests are handled one at a time", R + "supervisor.rs:handle_call")],
     ["answers of the requests, running children"], "Histories: 30 operations to depth 3 (thorough 4); two clients: all merges of two requests each.")
prop("C17", "A supervisor ends its children in reverse order, each as specified, leaving none",
     "When a supervisor is stopped, its parent ends, it gives up, or one of its children fails to start, it ends its running children one after the other, last started first, each only after the one before has ended: killed at once, or asked and then killed if it has not ended within its limit (five seconds by default for workers), or waited for without limit. It ends after the last of them, with the right reason; supervisors below do the same. Terminating a single child by request proceeds in the same way and affects no other.",
     [S, I], "all pairs of child behaviours and shutdown modes at every instant that matters, every way to end, every failing start position, every interleaving with children that end by themselves up to the deviation bound",
     "no test shuts a supervisor down",
     [R + "supervisor.rs", R + "shutdown.rs"],
     [("children are terminated from the back", R + "supervisor.rs:terminate_children"), ("ask, wait, kill", R + "shutdown.rs:shutdown_timeout")],
     ["order and time of requests and ends of children, end of the supervisor"], "")
prop("C18", "A supervisor shuts itself down exactly when its significant children finished",
     "With automatic shutdown for any significant child, the supervisor ends with reason shutdown, ending all other children, as soon as one significant child has finished (a temporary one by any end, a transient one by a normal end); with automatic shutdown for all, once the last significant child has finished, those ended by request not counted; otherwise never. A significant child that is restarted, or waits for its restart, has not finished.",
     [S, H], "every mode, every set of three children, every history of their ends up to the depth bound, every interleaving of two ends up to the deviation bound",
     "no test uses significant children",
     [R + "supervisor.rs", R + "shutdown.rs"],
     [("finished significant children are looked at", R + "supervisor.rs:check_auto_shutdown")],
     ["liveness and exit reason of the supervisor, running children"], "Histories: 3 ends (thorough 4).")
prop("C19", "A registry leads from each key to at most one running process of its own",
     "A lookup in a registry finds the running process of exactly that key (keys of different types differ), or none; starting a process for a key that has one reports it, looking up or starting yields the one process whoever asks, and of concurrent requests for one key exactly one starts it. A failed or ignored start leaves nothing behind. A stopped or ended process is gone from lookup, list and count; a removed one keeps running and is no longer the registry's business. Other registries and other handles do not change any of that.",
     [S, H], "every history of requests and process ends up to the depth bound against a reference model, every interleaving of clients with each other, with ends and with removals up to the deviation bound",
     "the tests cover no registry; two processes for one key, or a killed stranger, need two requests or an end at the same moment",
     [R + "registry.rs", R + "registry_options.rs", R + "key.rs"],
     [("starts are handled one at a time by the server", R + "registry.rs:handle_call"), ("the table is shared with the lookups", R + "registry.rs:lookup"), ("ended processes are taken out", R + "registry.rs:handle_info")],
     ["answers of the requests, running processes"], "Histories: depth 4 (thorough 5).")
prop("C20", "A registry that ends takes its own processes with it, as configured",
     "When a registry is stopped, its parent ends, or it crashes otherwise, its processes end: killed at once, or asked to shut down and killed if they have not ended within the limit, or waited for without limit, as its shutdown mode says. None is left running, a removed process and those of other registries are not touched, and the name and the table are free for a new registry, which knows none of the old processes.",
     [S, I], "all pairs of process behaviours, shutdown modes and ways to end, and every interleaving with requests, ends and a supervised restart up to the deviation bound",
     "the tests cover no registry",
     [R + "registry.rs"],
     [("terminate ends all processes", R + "registry.rs:terminate"), ("a dropped registry gives up its own table", R + "registry.rs:drop")],
     ["time and order of requests and ends of processes, lookup in the next registry"], "")
prop("C21", "An application runs until its main process has ended, and shuts down gracefully",
     "Running an application starts its main process and returns only after that has ended, whether normally, by a failure, a panic, or because it could not start. With graceful shutdown, the first termination signal asks it to shut down, and it is killed if it has not ended within the time-out or a second signal arrives, not before; nothing it supervises outlives it. A test of an application that fails, panics or is killed does not pass.",
     [S, I], "every kind of main process, configuration and end, and every instant of the signals up to the deviation bound",
     "the tests run no application through a signal",
     [R + "application.rs", R + "application_config.rs"],
     [("the application is monitored", R + "application.rs:run"), ("shutdown request, time-out and kill", R + "application.rs:run")],
     ["return of run and test, time of the end of processes"], "")
prop("C22", "A hash ring maps every key to one of its nodes, consistently",
     "A ring with nodes maps every key to exactly one of them, and an empty one to none; an override decides for its key. Adding a node moves keys to that node only, removing one moves only its keys, and setting nodes or overrides or clearing leaves exactly what was set. The mapping depends on the set of nodes only, not on the order of changes. Concurrent changes act in some order, and a reader sees the nodes as they were between two changes, never in the middle of one.",
     [S, H], "every history of changes up to the depth bound against a reference, every interleaving of two writers and of writers with a reader up to the deviation bound",
     "the tests cover single operations on one ring; an update lost to another writer needs both at once",
     [R + "hash_ring.rs"],
     [("one atomically replaced state", R + "hash_ring.rs:HashRing"), ("lookups take the next point on the ring", R + "hash_ring.rs:find_node")],
     ["find_node and map_node of a set of keys, return values of the changes"], "Histories: depth 4 (thorough 5), 44 keys, all changes.")
prop("C23", "A semaphore never hands out more permits than it has, and loses none",
     "Of a semaphore with n permits, at most n are out at any time, whoever acquires one or several, waiting or trying, borrowed or owned. A permit is available again as soon as its holder drops it, is killed, or panics; an acquire that was given up, timed out or killed takes none. A waiting acquire returns once enough permits are free, in the order of waiting; a try succeeds exactly if enough are free and nobody waits.",
     [S, H], "every interleaving of three acquirers with different counts, of cancelled, timed-out and killed ones up to the deviation bound, every history up to the depth bound against a counter",
     "no test uses a semaphore",
     [R + "semaphore.rs"],
     [("permits return on drop", R + "semaphore.rs:SemaphorePermit")],
     ["permits in use, results of acquire and try_acquire"], "")
prop("C24", "A task hands over its result exactly as it ended, and shutdown ends it",
     "Awaiting a task yields its value, or an error if it panicked or was ended; awaiting many yields one result per task in the order of the tasks, whatever the order in which they end. After shutting a task down it does not run any more, and the result says whether it had finished before. A task whose handle is dropped runs to its end, a panic stays inside of the task, and messages sent by tasks arrive.",
     [S], "every combination of ends of three tasks, every interleaving with a shutdown or a dropped handle up to the deviation bound",
     "no test shuts a task down or awaits tasks that end in another order",
     [R + "task.rs"],
     [("tasks run detached", R + "task.rs:spawn"), ("shutdown aborts and waits", R + "task.rs:shutdown")],
     ["results of await, await_many and shutdown, steps of the task"], "")
prop("C27", "Messages to another node arrive exactly once and in order while connected",
     "Every message sent to a process of another node, by identifier, by name, through an alias, or to several destinations at once, is received exactly once by each of them while the connection lasts, and those of one sender to one process in the order of sending, including messages sent while the connection is still being made, and exit signals among them. When the connection is lost, what arrived is a prefix of what was sent, nothing arrives twice or at somebody else, and a new connection carries what is sent after it was made, not what was sent towards one that was lost or never made. A one-shot alias delivers one message, whichever nodes use it.",
     [S, H, F], "every history of sends up to the depth bound against lists, every interleaving of senders of both nodes, the connection set-up and a loss of the connection at any point up to the deviation bound",
     "the tests start no second node",
     [R + "node_remote.rs", R + "node_registry.rs", R + "process.rs", R + "node_local.rs"],
     [("frames are queued until the sender process is registered", R + "node_registry.rs:node_send_frame"), ("pending frames go first", R + "node_registry.rs:node_register_workers"), ("frames are delivered by the receiver process", R + "node_remote.rs:node_remote_receiver")],
     ["messages received by processes of both nodes"], "Two nodes in one program over a virtual network. Histories: 3 operations (thorough 4).")
prop("C28", "Remote monitors and links report an end or the loss of the node exactly once",
     "A process that monitors or links to a process of another node is told exactly once: with the true reason if that process ends, noproc if it does not exist, or noconnection if the other node cannot be reached, is disconnected or forgotten, ends, or the local node ends, whichever comes first and however these race with the request. A removed monitor or link reports nothing, and the other node forgets it, as it does those of an owner that has ended. A connection that is made later neither repeats nor revives an old one. A call to a remote server returns its reply, or the same reasons, and nothing of it comes afterwards while server and connection last.",
     [S, H, F], "every way to watch with every fate of the process, the connection and either node, every interleaving of the request, the end and the loss up to the deviation bound",
     "the tests start no second node; lost reports need a loss inside of the installation of the monitor",
     [R + "node_registry.rs", R + "node_remote.rs", R + "monitor.rs", R + "link.rs", R + "process.rs"],
     [("every remote monitor is known to both nodes", R + "node_registry.rs:node_process_monitor_create"), ("a lost connection fires what depends on it", R + "node_registry.rs:node_remote_supervisor_down"), ("an end is reported over the connection", R + "monitor.rs:monitor_process_down")],
     ["down and exit messages, exit reasons, monitors shown for the remote process"], "Two nodes in one program over a virtual network with resets and refused or silent addresses.")
prop("C29", "Nodes agree on being connected, and notice the loss of each other in time",
     "Connecting, disconnecting, forgetting, stopping and starting nodes leads to exactly the states a user expects: after a connect both nodes list each other as connected over a single connection, a node that is disconnected or lost is known, a forgotten one unknown, and the local node's end forgets all. An idle connection lasts; one that went silent is given up after the heartbeat time-out and not before it, an attempt to connect to a silent address after the handshake time-out. A node monitor reports once that the node was lost or could not be reached, and nothing after it was removed.",
     [S, H, F], "every history of operations and connection losses on three nodes up to the depth bound against a reference model, combinations of heartbeat limits, every interleaving of two clients, a monitor and a loss up to the deviation bound",
     "the tests start no second node",
     [R + "node_registry.rs", R + "node_remote.rs", R + "node_local.rs", R + "node.rs", R + "node_options.rs"],
     [("one supervisor per connected node", R + "node_registry.rs:node_accept"), ("pings while idle, a limit on silence", R + "node_remote.rs:node_remote_receiver"), ("a lost node becomes known", R + "node_registry.rs:node_remote_supervisor_down")],
     ["Node::list, list_by_state, alive, node-down messages and their time"], "Up to three nodes in one program over a virtual network and clock. Histories: 3 operations of 14 (thorough 4). One known finding: simultaneous connects.")
prop("C25", "The wire carries messages whole, and malformed bytes end only their connection",
     "What a node sends is decoded on the other side as exactly the same messages in the same order, whatever their sizes and whatever the pieces in which the network takes and delivers the bytes. If the stream ends anywhere, what was received is a prefix of it, nothing of an incomplete message is seen, and both sides notice. Bytes that are no valid frame end the connection they came on, at once or with its next silence; they are never completed from what follows, never delivered, and neither crash the program nor affect other connections or a later one to the same node.",
     [I, F, S], "all message sizes around the buffer limits with several buffer capacities, every split of reads up to the deviation bound, a cut after every byte of either direction, every small frame of every kind filled with junk, every truncation of a real frame",
     "the tests start no second node and exercise no codec",
     [R + "frame/mod.rs", R + "frame/send.rs", R + "node_remote.rs"],
     [("length-prefixed frames", R + "frame/mod.rs:Codec"), ("a decoding error ends the receiver and with it the connection", R + "node_remote.rs:node_remote_receiver")],
     ["messages received, node states, life of the program"], "Real bytes of real frames, altered by a relay or sent by a raw peer.")
prop("C26", "A node is connected only after a right handshake, in time",
     "Two nodes become connected exactly if they have the same cookie at that time and the one that answers is the one that was asked for, by name and address. A peer whose first frame is missing, incomplete, altered in any byte, for another cookie, name or address, or not a greeting at all is never listed as connected, no message of it is delivered and none is sent to it; its connection is closed once that is clear, or at the handshake time-out at the latest. Nobody else is kept from connecting meanwhile, and the node that asked is told that the other is down.",
     [I, F, S], "all pairs of cookies, every truncation and every altered byte of a real greeting in both roles, replayed greetings, foreign frames, every interleaving with a cookie change, an impostor or a mute peer up to the deviation bound",
     "the tests start no second node",
     [R + "frame/hello.rs", R + "node_remote.rs", R + "node_registry.rs"],
     [("keyed hash over name and address", R + "frame/hello.rs:validate"), ("the answer must be the expected node", R + "node_remote.rs:node_remote_connector"), ("limits on both steps", R + "node_remote.rs:node_remote_accepter")],
     ["node states, messages delivered, bytes sent to the peer, node-down messages"], "Every node has its own cookie, also while they run in one program.")
prop("C30", "Identifiers name the same process, alias or node wherever they are sent",
     "A process identifier, alias, node or destination that is sent over any route of nodes, inside of any message, arrives as one that leads to the same process or node, equal to any other identifier of it there, and as a local one where it is at home. It never leads to another process of the same number on another node. After its node was forgotten, it leads nowhere, also when the node is connected again, while newly received ones work; it survives the loss of a connection, and the other node's restart under its name. The text form of a node reads back as that node.",
     [H, I, C], "every route of up to four hops over three nodes (thorough five), every history of forgetting, renaming, stopping and connecting up to the depth bound, a grid of names and addresses",
     "the tests serialize nothing",
     [R + "pid.rs", R + "reference.rs", R + "node.rs", R + "dest.rs", R + "node_registry.rs"],
     [("identifiers are sent with the name and address of their node", R + "pid.rs:serialize"), ("and become local where they are at home", R + "pid.rs:deserialize"), ("one number per known node", R + "node_registry.rs:node_register")],
     ["equality of identifiers, messages received by all processes of that number"], "All nodes use the same process and reference numbers. Histories: depth 5 (thorough 6).")
prop("C31", "A websocket handler serves its connection in order and ends exactly once",
     "A request that accept denies, that is malformed, or that is not complete in the time for the handshake gets no handler and its connection is closed, a denied one after an answer with the reason; an accepted one gets one handler. Its websocket_init comes first, then every message of the connection and every message to its process exactly once, in the order of each; the commands of all callbacks are carried out in that order, none after a close; a ping and a close are answered; a message above the limits is not delivered and ends the connection. However the connection or the handler ends, there is one reason: terminate is called exactly once with it (not if a signal or a panic ends the process), a monitor gets the same, nothing happens after it, the connection closes and other connections are unaffected. The server's end is that of its listener; an address in use is an error of the start; a supervised server is restarted with its configuration.",
     [S, I, F], "every way to end at three points of a conversation, every sequence of good and bad requests up to the depth bound, all limits around all sizes, every interleaving and every split of reads of a conversation, and of two concurrent ends, up to the deviation bound",
     "the repository has no test of the websocket server",
     ["hydra-websockets/src/websocket_handler.rs", "hydra-websockets/src/websocket_server.rs", "hydra-websockets/src/websocket_server_config.rs"],
     [("one loop over the mailbox and the connection", "hydra-websockets/src/websocket_handler.rs:start_websocket_handler"), ("commands stop at a close", "hydra-websockets/src/websocket_handler.rs:websocket_process_commands"), ("time and size limits", "hydra-websockets/src/websocket_server.rs:server_accept")],
     ["callbacks of the handler in order, bytes the client receives, down messages, listening addresses"], "The client is the check's own encoder and decoder of frames; TLS is not covered.")
prop("C32", "Process information, lists and names say what is so",
     "Whatever processes have done, when nothing is in progress: the list of processes has every running process exactly once and none that has ended, registered has exactly the names that lead to one, whereis and alive say the same, and information about a process is there exactly while it runs, with its own name, flag to trap exits, number of messages that wait to be received, its links (the same from both ends, none to a process that has ended or that never was) and those that monitor it. While processes come and go, those that stay are always shown, those that have ended never return, and asking changes nothing.",
     [H, S], "every history of registering, linking, monitoring, sending, trapping and ending among three processes up to the depth bound against a reference model, crowds, every interleaving of questions with processes that come and go up to the deviation bound",
     "the tests ask once, in a settled state, about few fields",
     [R + "process.rs", R + "process_registry.rs", R + "process_info.rs", R + "link.rs", R + "monitor.rs", R + "alias.rs"],
     [("lists are made of the registry", R + "process_registry.rs:process_list"), ("information is filled in by links and monitors", R + "process.rs:info"), ("a link is kept by both ends", R + "link.rs:link_install")],
     ["Process::list, registered, whereis, alive, info"], "Histories: 4 operations of 21 (thorough 5).")
prop("C33", "An application's console server is there from start to end, and tells what is so",
     "While an application runs with its console, a process is registered under the console's name; connect finds it on the local and on another node, and its answers about processes, nodes and the runtime are those of the node it runs on, in the moment it answers: identifiers lead to the processes they name from wherever it is asked. When it crashes or is killed it is started again, the application goes on, and a question that was under way is answered or fails with a reason. It ends with the application, which returns as it would without it.",
     [H, S, F], "every history of links, monitors, names, ends and connections up to the depth bound between questions, every interleaving of concurrent questions, a question from another node and an end of the server up to the deviation bound",
     "no test starts the console server",
     [R + "console.rs", R + "application.rs", R + "runtime_info.rs"],
     [("one server under a fixed name", R + "console.rs:start_link"), ("started again when it exits", R + "application.rs:run")],
     ["answers of the console server, its registered name, end of the application"], "The crate is built with its console feature. Histories: 4 operations (thorough 5).")
