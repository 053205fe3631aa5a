"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/meta.py"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []   # (id, title, statement, over, over_text, why, files, mechanisms, observe, level_note or None)
NET = "streamtasks/net/__init__.py"


def prop(id, title, statement, over, text, why, files, mech, observe, note=None, reason=None, state=None, technique=None):
  P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe,
                note=note, reason=reason, state=state, technique=technique))


# ---------------------------------------------------------------- network
prop("N01", "Topic data reaches every subscriber exactly once, in order",
     "Data published on a topic by its provider is received exactly once, unaltered and in publication order by every end point whose subscription and path were in place, whatever the tree of switches in between. No end point that is not subscribed receives it, and the publisher never gets its own data back.",
     ["schedules", "histories", "configurations"], "every tree of switches, every history of provide/subscribe/publish/withdraw operations, every order in which the messages in flight are delivered",
     "The tests push a handful of messages through one or two switches with everything already settled; they fix one delivery order.",
     [NET, "streamtasks/net/helpers.py"], [("flooding of topic data to requesting links", NET + " Switch.on_stream_message"), ("request propagation", NET + " Switch.request_in_topics_change")],
     ["messages received by end points through the link API"],
     note="SwitchProto.tla (message level) model checked against the monitor Net.tla; its behaviours, delivery schedule included, are replayed on real switches and every recorded trace is validated against Net.tla. Bounded: trees of up to 4 switches, 4 end points, 2 topics.")
prop("N02", "A provider is asked for a topic exactly while somebody wants it",
     "Once the network is quiet, the provider of a topic is being asked for it if and only if some other reachable end point is subscribed to it. With several interchangeable providers, at least one of them is asked while there is demand and none of them when there is none, also after a provider withdraws or disappears.",
     ["schedules", "histories", "configurations"], "every history of provide/withdraw/subscribe/unsubscribe/attach/detach operations and every message order, on every tree of switches",
     "Tests check single subscribe/unsubscribe steps; reference counts, fail-over between providers and races between withdrawals and subscriptions need histories.",
     [NET, "streamtasks/utils.py"], [("subscription counting", "streamtasks/utils.py IdTracker"), ("re-subscription to a better provider", NET + " Switch.on_out_topics_changed")],
     ["topic requests received by end points"],
     note="As N01: exhaustive model checking of the message-level algorithm on small trees, replay of its behaviours and trace validation on the real switches.")
prop("N03", "An addressed message reaches the holder of the address, once, and nobody else",
     "A message sent to an address is delivered exactly once, unaltered and with its port, to the end point holding that address while that holder and the path to it are stable, in sending order. Nobody who does not hold the address receives it; with several holders exactly one nearest holder receives it.",
     ["schedules", "histories", "configurations"], "every tree, every history of address announcements, moves and withdrawals, every message order",
     "Tests send single messages between two settled clients.",
     [NET], [("routing by cheapest link", NET + " Switch.on_addressed_message"), ("address announcements", NET + " Switch.on_addresses_changed")],
     ["addressed messages received by end points"],
     note="As N01 with the address operations.")
prop("N04", "Announcements converge to the true set of providers and path costs",
     "Once the network is quiet, every end point knows exactly the topics and addresses offered by some other reachable end point, each with the cost of the cheapest path to an offerer. Nothing that was withdrawn, and nothing whose offerer is unreachable, remains known.",
     ["schedules", "histories", "configurations"], "every history of announcements, withdrawals, link losses and reconnections on every tree of switches, every delivery order",
     "Tests look at one or two announcements; stale or missing entries only appear after sequences of updates with several offerers.",
     [NET, "streamtasks/net/helpers.py"], [("priced id tracking", "streamtasks/net/helpers.py PricedIdTracker"), ("announcement forwarding", NET + " Switch.on_out_topics_changed, Switch.add_link, Switch.remove_link")],
     ["announcements received by end points"],
     note="As N01; costs of links vary. Outside one switch, interchangeable providers live on the same switch (see DESIGN.md for the limit of the protocol).")
prop("N05", "A subscriber always learns the current pause state of a topic",
     "Once the network is quiet, every subscriber of a topic whose provider has announced a paused or resumed state has last been told exactly that state, no matter whether it subscribed before or after the announcement. Nobody is told a state that was never announced, and non-subscribers are told nothing.",
     ["schedules", "histories"], "every interleaving of pause/resume announcements with subscriptions, re-subscriptions and provider changes",
     "Tests pause with the subscriber already connected; late subscription through several switches is a race.",
     [NET], [("control state kept per switch and replayed", NET + " Switch.on_in_topics_changed, Switch.handle_message")],
     ["control messages received by end points"],
     note="As N01 with pause/resume announcements.")
prop("N06", "Renumbering topics on a link is invisible to both sides",
     "An end point behind a renumbering link behaves exactly as one that used the translated topic numbers on a plain link: data, pause state, announcements and requests arrive under the translated number, nothing arrives under the wrong one, and addresses are untouched.",
     ["inputs", "histories", "schedules"], "every injective renumbering (including permutations of used numbers), every history of operations",
     "There is one example based test with a fixed mapping.",
     [NET], [("renumbering of each message kind in both directions", NET + " TopicRemappingLink")],
     ["messages seen by end points behind the renumbering link"],
     note="Same scenarios as N01-N05 with random renumberings per end point; the trace specification applies the translation.")
prop("N07", "Losing a link costs exactly what was behind it",
     "When a link closes at any moment, everything announced, requested or held through it is withdrawn everywhere, demand moves to another provider if there is one, and messages between other end points are unaffected. No other link is closed, no operation of another end point fails, and the network can be joined again at the same place.",
     ["fault_sequences", "schedules", "histories"], "link losses and reconnections at every point of every history, with messages in flight in both directions",
     "No test closes a link while traffic is in flight.",
     [NET], [("link removal", NET + " Switch.remove_link"), ("receiver loop", NET + " Switch._run_link_receiving")],
     ["what the remaining end points know, receive and are asked for; which links stay open"],
     note="As N01 with link loss and reconnection, including sends that suspend and handlers that overlap.")
json_why = "Tests round-trip a few fixed messages over one happy connection."
prop("N08", "Messages survive the wire exactly, however the bytes are chunked",
     "A message written to a stream connection is read on the other side equal to what was sent, in order, no matter how the byte stream is split into chunks. Bytes that are not part of a message (noise without a complete frame marker, a truncated frame before the connection ends) never produce a message and never swallow a following intact one; a stream that ends is reported as a closed connection, and cancelling a send or a receive loses or tears no other message.",
     ["inputs", "fault_sequences"], "every message kind and content, every chunking of the byte stream, noise between frames, loss at every byte",
     json_why, ["streamtasks/connection.py", "streamtasks/net/serialization.py", "streamtasks/net/messages.py"],
     [("framing with a sync word and length", "streamtasks/connection.py RawConnection"), ("message encoding", "streamtasks/net/serialization.py serialize_message/deserialize_message")],
     ["messages returned by receive, connection closed errors"], note='Wire.tla (framing at byte level, decoder automaton included) is model checked; its behaviours (chunk cuts, noise, truncation, blocked and cancelled sends, cancelled receives) are replayed on the real connection classes with generated message contents and validated against the specification.')
prop("N09", "Only peers that complete the handshake get a link",
     "A server links a peer only if it completes the handshake with matching version and exactly the server's authentication token (or none when the server has none) - for every connection over the server's life, not only the first; everybody else is refused and disconnected, nothing it sends is processed, and the token is never disclosed. A client accepts only a server that confirms the same way. Each side charges the link cost configured in its own address.",
     ["fault_sequences", "histories", "inputs"], "every sequence of good, wrong and absent credentials, garbage and disconnects over the life of a server",
     "Tests connect once with matching credentials.",
     ["streamtasks/connection.py"], [("handshake", "streamtasks/connection.py connect/Server init")],
     ["accepted links, connection errors"], note='ConnProto.tla (set-up, loss, restart, reconnection) is model checked with liveness; histories generated from Conn.tla are run with real unix, tcp and websocket servers, proxies that cut connections and hand-made peers, and validated against Conn.tla.')
prop("N10", "Lost connections are re-established and counted correctly",
     "An automatically reconnecting client keeps trying after every kind of connection failure, pausing its delay between attempts, and ends up linked again once the server is reachable, without ever holding two links. A server's count of live connections equals the number of peers currently connected through it, and stopping a server ends its connections.",
     ["fault_sequences", "schedules"], "every sequence of refusals, losses and recoveries",
     "No test interrupts a connection.",
     ["streamtasks/connection.py"], [("reconnect loop", "streamtasks/connection.py AutoReconnector"), ("server bookkeeping", "streamtasks/connection.py ServerBase")],
     ["links added to the switch, reported connection counts"], note='As N09.')
# ---------------------------------------------------------------- client
prop("C01", "Subscriptions and provisions of a client are counted",
     "However many independent users inside one client subscribe to or provide a topic, the network sees one subscription from the first until the last of them leaves, and each active user receives every message exactly once in order. Closing one user's handle never affects another's.",
     ["histories", "schedules"], "every history of opening, starting, stopping and closing topic handles and registrations of one client",
     "Tests use one handle per topic.",
     ["streamtasks/client/__init__.py", "streamtasks/client/receiver.py", "streamtasks/client/topic.py"],
     [("reference counted registration", "streamtasks/client/__init__.py Client.register_in_topics/unregister_in_topics"), ("receiver start/stop counting", "streamtasks/client/receiver.py Receiver")],
     ["messages the client puts on its link, values handed to the users"], note="Handles.tla (one client: handles, receivers, contexts, both directions of its link) model checked on bounded histories; its behaviours are replayed on a real Client over a hand-driven link and every step is validated against the specification.")
prop("C02", "A topic handle reports pause and demand as they are",
     "A topic handle's paused flag on the receiving side equals the last state announced by the provider, its requested flag on the providing side equals the existence of demand, and every waiter for a change of either is released as soon as, and only when, the change has happened. Setting the same state again announces nothing new.",
     ["histories", "schedules"], "every interleaving of pause/resume/demand changes and waits",
     "Tests wait for a single transition.",
     ["streamtasks/client/topic.py", "streamtasks/utils.py"], [("pause state", "streamtasks/client/topic.py InTopic, OutTopic"), ("waitable trackers", "streamtasks/utils.py AwaitableIdTracker, AsyncBool")],
     ["handle properties and wait functions"], note="As C01, the flags and the released waiters of every handle compared after every step.")
prop("C03", "Every request gets its own answer",
     "Each request to a served endpoint completes exactly once with the response or error its handler produced for that very request, however many requests are outstanding and in whatever order they are answered. Requests with an unknown descriptor and malformed requests are answered by no handler; they never disturb other requests and never stop the server from answering later ones.",
     ["schedules", "inputs", "histories"], "every interleaving of concurrent requests and handler completions, including failing handlers",
     "Tests issue one request at a time.",
     ["streamtasks/client/fetch.py"], [("request/response matching", "streamtasks/client/fetch.py FetchServer, FetchReponseReceiver")],
     ["results of fetch calls"], note='Rpc.tla model checked; its behaviours (concurrent requests, answers in any order, failing handlers, malformed and foreign messages) are replayed on real clients joined by a switch and every step is validated against the specification.')
prop("C04", "Signals and broadcasts reach exactly the registered listeners",
     "A signal is handled exactly once by the handler registered for its name and by no other, and a broadcast on a namespace reaches every subscriber of that namespace exactly once, in order, from the moment it is subscribed until it leaves. A malformed signal or failing handler does not stop later ones.",
     ["histories", "inputs"], "every history of registrations, subscriptions, messages and failures",
     "Tests send one signal and a few broadcasts.",
     ["streamtasks/client/signal.py", "streamtasks/client/broadcast.py"], [("signal dispatch", "streamtasks/client/signal.py SignalServer"), ("broadcast distribution", "streamtasks/client/broadcast.py BroadcastingServer, BroadcastReceiver")],
     ["handler invocations, values received"], note='As C03, with Bcast.tla for broadcasts.')
prop("C05", "Synchronized inputs are released in timestamp order",
     "Inputs read through a synchronizer are handed out in timestamp order across the topics taking part (those of which a message or resumption was read since they were last paused), each exactly once, none before every other such topic has reached its time; messages older than what was already read of the same topic are dropped. None is held back for ever when a topic is paused or finished. Among equal times the higher priority comes first.",
     ["schedules", "inputs"], "every interleaving of arrivals, pauses and reads over the synchronized topics",
     "Tests use two topics and one arrival order.",
     ["streamtasks/client/topic.py"], [("sequential and prioritized synchronizers", "streamtasks/client/topic.py SequentialInTopicSynchronizer, PrioritizedSequentialInTopicSynchronizer")],
     ["order of values returned by receive"], note='Sync.tla model checked (deadlock freedom, order); its behaviours are replayed on the real synchronizers and validated against the specification. Priorities, pauses, resumptions, junk, equal times.')
# ---------------------------------------------------------------- discovery
prop("D01", "Addresses and topic ids handed out are never handed out twice",
     "No address and no topic id is assigned to two requesters, whatever the sequence of requests and counts, including concurrent requests; a request for n gets exactly n distinct ids outside the reserved range.",
     ["histories", "schedules", "inputs"], "every sequence of (possibly concurrent) requests of any size",
     "Tests make one or two requests.",
     ["streamtasks/services/discovery.py"], [("id generation", "streamtasks/services/discovery.py DiscoveryWorker")],
     ["ids received by requesters"], note='Disc.tla model checked; its behaviours (several clients, concurrent requests, waits) are replayed on a real discovery service, clients and switch and validated against the specification.')
prop("D02", "An address name resolves to its current registration",
     "Resolving a name anew yields the address most recently registered for it, or nothing if it was never registered or was removed, on every client, once earlier registrations have been acknowledged. A client may keep using an address it has resolved before, until it unregisters the name itself. Waits for a name end exactly when it is registered.",
     ["histories", "schedules"], "every history of registrations, changes, removals and lookups by several clients",
     "Tests register once and resolve once.",
     ["streamtasks/services/discovery.py", "streamtasks/client/discovery.py", "streamtasks/client/__init__.py"], [("name table", "streamtasks/services/discovery.py"), ("client side cache", "streamtasks/client/__init__.py Client.resolve_address_name")],
     ["results of name resolution"], note='Disc.tla model checked; its behaviours (several clients, concurrent requests, waits) are replayed on a real discovery service, clients and switch and validated against the specification.')
prop("D03", "A topic space translates consistently for all of its users",
     "A topic space maps each of its internal topic ids to a distinct fresh global id, gives every user the same translation for as long as it exists, and is unknown after its deletion. Deleting one space does not affect another.",
     ["histories"], "every history of creations, lookups and deletions of topic spaces",
     "Tests create one space.",
     ["streamtasks/services/discovery.py", "streamtasks/client/discovery.py"], [("topic spaces", "streamtasks/services/discovery.py")],
     ["translations returned to clients"], note='Disc.tla model checked; its behaviours (several clients, concurrent requests, waits) are replayed on a real discovery service, clients and switch and validated against the specification.')
# ---------------------------------------------------------------- tasks
prop("T01", "The manager's view of a task follows the task's life",
     "A task that is started is reported as running, as ended when it finishes, failed with its error when it raises, and never goes back; the status the manager holds and broadcasts is that of the task once messages are delivered. A task that cannot be started is reported failed to the requester.",
     ["schedules", "histories", "fault_sequences"], "every interleaving of start, finish, failure, cancel and report messages",
     "Tests run one task to its end.",
     ["streamtasks/system/task.py"], [("task life cycle", "streamtasks/system/task.py TaskHost, TaskManager")],
     ["task instances listed and broadcast by the manager"], note="Tasks.tla: life of tasks at the manager and in the hosts, with tasks that fail, hang or report nonsense while being set up, end at once, on command or by an error, in a coroutine or a thread; requests queue up behind a start that hangs; pairs of operations at the same instant may take effect in either order. Traces of the real manager, hosts and clients are validated against it.")
prop("T02", "Cancelled tasks and departing hosts leave nothing running",
     "Cancelling a task stops it and reports it ended; a host that shuts down stops all of its tasks, unregisters from the manager, and its tasks are reported as over. No task keeps running or keeps being listed as running after its host is gone.",
     ["schedules", "fault_sequences"], "cancellation and host shutdown at every point of a task's life, tasks that resist cancellation included",
     "Tests never shut a host down with tasks running.",
     ["streamtasks/system/task.py"], [("host shutdown", "streamtasks/system/task.py TaskHost.run"), ("cancel request", "streamtasks/system/task.py TaskHost")],
     ["running coroutines, task status at the manager"], note="As T01, with cancellations that are slow, answered by an error or ignored, hosts that shut down at any point, are lost and come back. A task that swallows its cancellation for ever cannot be stopped; it is only required that its host leaves within its limit and that nobody lists the task any more.")
prop("T03", "A function task applies its function to every complete set of inputs",
     "A task built from a plain function calls it with the current values of its inputs and publishes what it returns, once per triggering input, with the right output, timestamp and state; configuration values and per-task state are those of that task only.",
     ["inputs", "histories", "programs"], "function signatures, input sequences and configurations",
     "There are no tests of the task's data path.",
     ["streamtasks/system/fntask.py"], [("signature analysis and execution", "streamtasks/system/fntask.py")],
     ["messages published by the task"], note="Fn.tla: inputs with and without synchronization, calls that take their time, invalid messages and return values, failing functions; model checked as the set of states the observations allow. Eight functions of different shapes are run as real task hosts behind a manager; calls, published messages and task status are validated against it.")
# ---------------------------------------------------------------- store
prop("S01", "Deployments cannot be changed while they run",
     "A deployment that is being started, runs, or is being stopped rejects edits of its tasks and a second start; stopping stops every task it started, after which it can be edited and started again. Its reported status follows the status of its tasks.",
     ["histories", "schedules"], "every history of edits, starts, stops, task failures and queries, concurrent ones included",
     "Tests cover no deployment life cycle.",
     ["streamtasks/system/task_web.py"], [("deployment status and locking", "streamtasks/system/task_web.py")],
     ["responses of the management interface"], note="Deploy.tla: deployments, their tasks and their instances, model checked; generated histories of edits, schedule/start/stop requests (pairs of them at the same time), tasks that end, fail, hang in their setup, ignore cancellation, and task hosts that go and come back, run against the real web backend, task manager and task host over HTTP in virtual time, and every trace is validated: answers, listings, status of every instance, bodies that run, tasks the host was asked for, configuration and topic space of each.")
prop("S02", "Saved deployments, secrets and names survive a restart unchanged",
     "Everything acknowledged as stored - deployments with their tasks, secrets, named topics, connection settings - is there with the same content after a restart from the same storage, and everything deleted is gone. Nothing of one stored object leaks into another. When the connection manager stops, its servers and connections stop with it.",
     ["histories", "crash_points"], "every history of create/update/delete operations with restarts in between",
     "Tests do not restart.",
     ["streamtasks/pydanticdb.py", "streamtasks/system/task_web.py", "streamtasks/system/named_topic_manager.py", "streamtasks/system/secret_manager.py"], [("persistence", "streamtasks/pydanticdb.py")],
     ["contents reported after restart"], note="Store.tla: the stored objects as maps. Histories generated by TLC run against the real services over HTTP and fetch, each session in a process of its own on one scratch data directory; restarts are clean stops and kills. Every trace is validated. Connection settings and servers go over the loopback and unix sockets.")
prop("S03", "A crash while saving leaves the old or the new state, never a torn one",
     "If the process dies at any point while deployments, tasks, dashboards, topic names or secrets are being saved, the next start loads either the state before or the state after the save, completely. A start from storage never fails because an earlier save was interrupted.",
     ["crash_points"], "a crash at every step (and every partial write) of a save",
     "No test interrupts a save.",
     ["streamtasks/pydanticdb.py"], [("saving to disk", "streamtasks/pydanticdb.py PydanticDB.save")],
     ["state loaded after the crash"], note="Store.tla with death points: a preloaded library ends the process at (or in the middle of) the n-th file system call below the data directory during an operation; the next session has to show the state before or after it and to start at all. Model of a crash: death of the process, not loss of what the kernel already accepted.")
prop("S04", "The secret and named-topic registries answer with what was stored",
     "Creating, updating, listing, resolving and deleting secrets and named topics behave as a map: lookups return the latest stored value, missing entries are reported as missing and not as an internal failure, and the two registries do not interfere.",
     ["histories", "inputs"], "every history of operations by several clients",
     "Tests cover a single creation and lookup at most.",
     ["streamtasks/system/named_topic_manager.py", "streamtasks/system/secret_manager.py"], [("registries", "streamtasks/system/named_topic_manager.py, streamtasks/system/secret_manager.py")],
     ["responses to requests"], note="Store.tla: answers of the registries against maps, two clients, missing entries, both registries on one network.")
# ---------------------------------------------------------------- stream blocks
prop("B01", "A gate passes data exactly while it is open",
     "A gate forwards an input message, unaltered and in order, if and only if the gate is open at that moment: its latest control value is above one half and, according to the configured fail mode, neither its input nor its control being paused closes it. Its output is paused exactly while the gate is not open.",
     ["histories", "inputs", "configurations"], "every sequence of data, control values and pause changes, every configuration",
     "The tests walk one path per mode.",
     ["streamtasks/system/tasks/gate.py"], [("gate state machine", "streamtasks/system/tasks/gate.py")],
     ["output messages and pause state"], note="Blocks.tla (composed with Sync.tla, the input synchronisation) model checked; its behaviours are replayed on the real task between two clients and a switch, every step validated.")
prop("B02", "A selector forwards exactly its selected input",
     "A selector's output carries exactly the messages of the input chosen by the highest of the latest control values, unaltered and in order, and while an input is chosen its pause state is that of this input. A control that is paused withdraws its value; control messages that carry no number are ignored.",
     ["histories", "inputs"], "every sequence of control values, data and pauses",
     "The tests walk one path.",
     ["streamtasks/system/tasks/switch.py"], [("selection", "streamtasks/system/tasks/switch.py")],
     ["output messages and pause state"], note="Blocks.tla as B01, SwitchTask with 1 to 3 inputs.")
prop("B03", "Stateful text and logic blocks follow their truth tables",
     "Latches, matchers, concatenators, calculators, converters, message detectors, pulse generators and timestamp updaters emit exactly the outputs their inputs so far determine, once per change or trigger, stamped with the time of the input that caused them; messages they cannot interpret change nothing and stop nothing.",
     ["histories", "inputs"], "every sequence of input values and every configuration",
     "Most of these blocks have no tests.",
     ["streamtasks/system/tasks/srlatch.py", "streamtasks/system/tasks/stringconcatenator.py", "streamtasks/system/tasks/stringmatcher.py", "streamtasks/system/tasks/messagedetector.py", "streamtasks/system/tasks/calculator.py", "streamtasks/system/tasks/numbertotext.py", "streamtasks/system/tasks/timetotext.py", "streamtasks/system/tasks/pulsegenerator.py", "streamtasks/system/tasks/timestampupdater.py"],
     [("block state machines", "streamtasks/system/tasks/*.py")],
     ["output messages"], note="Blocks.tla (per-block state machines over synchronised inputs) and Buffers.tla (timed blocks, virtual time) model checked; behaviours replayed on the real tasks with generated values.")
prop("B04", "Buffers replay what they recorded, in order, without loss",
     "A time buffer emits every message it was given exactly once, in order, once the configured delay has passed (since arrival, or relative to the newest message). A replay buffer emits its recording exactly once per switch-on, or in a loop, in order with its original spacing shifted to play time, until it is switched off or its input resumes, which clears it. A repeater repeats the last value at its rate. Nothing else is emitted.",
     ["histories", "inputs", "schedules"], "every sequence of inputs, controls and time steps",
     "The buffers have no tests.",
     ["streamtasks/system/tasks/timebuffer.py", "streamtasks/system/tasks/replaybuffer.py", "streamtasks/system/tasks/repeater.py", "streamtasks/rawdatabuffer.py"],
     [("buffers", "streamtasks/system/tasks/timebuffer.py, replaybuffer.py, repeater.py")],
     ["output messages"], note="Buffers.tla (timed blocks in virtual time) model checked; behaviours replayed on the real tasks with a controlled clock.")
prop("B05", "The synchronizer block emits its inputs aligned and in time order",
     "The synchronizer block passes every input message to the matching output exactly once and in timestamp order across inputs, and a paused input neither blocks nor reorders the others.",
     ["schedules", "inputs"], "every interleaving of arrivals and pauses over its inputs",
     "Tests cover one interleaving.",
     ["streamtasks/system/tasks/synchronizer.py"], [("synchronizer", "streamtasks/system/tasks/synchronizer.py")],
     ["output messages"], note='Sync.tla in block mode, replayed on the real SynchronizerTask.')
# ---------------------------------------------------------------- utils
prop("U01", "A shared producer runs while it has consumers and drops nothing",
     "A shared producer runs, once at a time, exactly while somebody holds it or waits for an item and it has not ended; every consumer receives every item produced during its membership in order, and leaving, closing, or the producer ending or failing never loses items already produced for it, disturbs others or leaves anybody waiting forever.",
     ["schedules", "histories"], "every interleaving of consumers joining, reading, leaving and items being produced",
     "Tests use one consumer.",
     ["streamtasks/utils.py"], [("producer/consumer", "streamtasks/utils.py AsyncProducer, AsyncConsumer, AsyncMPProducer")],
     ["items returned to consumers, producer starts and stops"], note="Prod.tla model checked; its behaviours replayed on AsyncProducer and AsyncMPProducer (real threads), producers that take time to stop included.")
prop("U02", "Cancelling a task group stops everything, lowest priority first",
     "Cancelling a group of background tasks ends every one of them, those of lower priority before those of higher, also when some finish, fail, resist for a while or are created during the cancellation; afterwards the group can be used again.",
     ["schedules", "histories"], "every mix of priorities, finishing orders and resisting tasks",
     "Tests do not cover cancellation order.",
     ["streamtasks/utils.py"], [("task groups", "streamtasks/utils.py AsyncTaskManager")],
     ["order in which tasks end"], note="Group.tla model checked; its behaviours (tasks that end, fail, resist, create others) replayed on AsyncTaskManager in virtual time.")
# ---------------------------------------------------------------- web
prop("B06", "Named topics connect the blocks that use one name, whenever they start",
     "Everything that is published on the input of a named output block arrives, unchanged, once and in order, at the output of every named input block of the same name, and nowhere else, and the output is paused exactly when the input is, no matter on which nodes, in which deployment's topics and in which order these blocks were started, stopped and started again, how many share a name, and whether the name was removed in between. Such a block demands its input exactly while it runs; its name is listed, with the metadata of the output block that was started last; the reserved name is refused.",
     ["histories", "concurrency"], "every history of named output and input blocks starting and stopping (also at once), names removed, bursts of messages and pauses, chains of blocks",
     "One test sends one message through one pair of blocks.",
     ["streamtasks/system/tasks/namedoutput.py", "streamtasks/system/tasks/namedinput.py", "streamtasks/system/named_topic_manager.py"], [("NamedOutputTask", "streamtasks/system/tasks/namedoutput.py"), ("NamedInputTask", "streamtasks/system/tasks/namedinput.py"), ("resolve_named_topic", "streamtasks/system/named_topic_manager.py")],
     ["what arrives at the outputs", "pause states", "the demand the sources see", "the list of names", "task states"], note="Named.tla (blocks, names, reachability between them) model checked; histories replayed on a task manager, named topic manager and task hosts over real switches, blocks inside and outside of topic spaces.")

prop("B07", "A media switch passes the selected stream on from a keyframe, without gaps",
     "A media switch passes on, in the order of time, exactly the packets of the selected stream from its first keyframe after it was selected; a stream that lost packets because another one was selected in between is continued with a keyframe again, never in the middle. The output is paused exactly when the selected input is.",
     ["histories", "schedules"], "every interleaving of packets, keyframes, invalid messages, control values and pauses on up to three pairs",
     "No test.",
     ["streamtasks/system/tasks/media/mediaswitch.py", "streamtasks/system/tasks/switch.py"], [("MediaSwitchTask", "streamtasks/system/tasks/media/mediaswitch.py")],
     ["messages on the output", "pause state of the output"], note="Blocks.tla (mswitch over Sync.tla's reading order) model checked; histories replayed on the task over an in-memory connection.")

prop("B08", "What an audio mixer sends is the sum of its tracks at every instant",
     "Each sample an audio mixer sends for an instant is the sum of the samples its tracks have for this instant: tracks are aligned by their timestamps, holes are silence, a chunk that begins before the end of its track adds only what is new, and every instant from the earliest start on is sent once, in order, as soon as all tracks that are not paused have it (less the samples to be kept). Paused tracks are not waited for and start anew when they resume; invalid messages change nothing.",
     ["inputs", "histories", "schedules"], "every history of chunks of any length, holes, overlaps, pauses, invalid messages and late tracks, one to three tracks, synchronized or not",
     "No test.",
     ["streamtasks/system/tasks/media/audiomixer.py", "streamtasks/media/util.py"], [("AudioMixerTask", "streamtasks/system/tasks/media/audiomixer.py"), ("AudioSequencer", "streamtasks/media/util.py")],
     ["samples and times of the output"], note="Mixer.tla (tracks as stretches of samples, mixing over Sync.tla's reading order) model checked; histories replayed on the task with five sample formats, one and two channels.")

prop("B09", "What media blocks with a thread send depends only on their input, in order",
     "What an audio volume scaler, an audio volume meter, a video activity meter or a video layout sends depends only on what it received, in the order it received it (in the order of time where synchronized), not on how far its thread was: each valid chunk scaled by the scale in force at it (the default before, after an invalid one and while the scale input is paused) and limited to the range of its format; one volume per window of samples at the time of its first sample; the mean difference of each frame to the frame before; each frame at its place in an otherwise empty picture, cut at the border. Everything valid is answered once and in order with its own timestamp. Invalid messages and chunks of wrong size change nothing and never end the block. The output is paused exactly when the input is, meters report zero then, and a block that is stopped ends.",
     ["inputs", "histories", "concurrency"], "every history of chunks of any size, bursts, invalid and wrongly sized chunks, scales, pauses, against the real threads",
     "No test.",
     ["streamtasks/system/tasks/media/audiovolumescaler.py", "streamtasks/system/tasks/media/audiovolumemeter.py", "streamtasks/system/tasks/media/videoactivitymeter.py", "streamtasks/system/tasks/media/videolayout.py", "streamtasks/media/util.py", "streamtasks/system/task.py"], [("AudioVolumeScalerTask", "streamtasks/system/tasks/media/audiovolumescaler.py"), ("AudioVolumeMeterTask", "streamtasks/system/tasks/media/audiovolumemeter.py"), ("VideoActivityMeterTask", "streamtasks/system/tasks/media/videoactivitymeter.py"), ("VideoLayoutTask", "streamtasks/system/tasks/media/videolayout.py"), ("AudioChunker", "streamtasks/media/util.py")],
     ["samples, values and pixels of the output with their times", "pause state", "the end of the task"], note="Media.tla (the outputs as a function of the inputs, over Sync.tla's reading order) model checked; histories replayed on the tasks with their real threads.")

prop("B10", "A video mixer lays the current frames of its tracks over each other",
     "Each picture a video mixer sends is the current frames of all tracks that are not paused and have one, blended by their opacity over the background colour in the order of the tracks, opaque, of the configured size, with the time of the earliest of these frames. A picture is sent, once and in order, whenever a track that has given a frame to the picture receives its next one. Invalid messages and frames of wrong size change nothing and never end the block.",
     ["inputs", "histories", "concurrency"], "every history of frames on one to three tracks, at the same or different rates, bursts, opacities, pauses, invalid and wrongly sized frames, synchronized or not, against the real thread and extension",
     "No test.",
     ["streamtasks/system/tasks/media/videomixer.py", "streamtasks/media/video_perf_all.cpp"], [("VideoMixerTask", "streamtasks/system/tasks/media/videomixer.py"), ("merge_images", "streamtasks/media/video_perf_all.cpp")],
     ["pixels and times of the output", "the end of the task"], note="Pictures.tla (layers, blending, completion of pictures, over Sync.tla's reading order) model checked; histories replayed on the task with its thread and the extension compiled from the tree.")

prop("B11", "What is encoded and decoded without loss, or reformatted, keeps content and time",
     "Audio and video that pass an encoder and a decoder of a codec without loss, or an audio resampler that keeps the format, come out complete, unchanged, in order and at their own times, also where the decoder starts in the middle of the stream. A video reformatter keeps the pictures and turns their rate into the configured one by repeating or leaving out frames evenly, at times that only go forward. Invalid messages, data and packets change nothing and never end the block; it ends when it is stopped, also in the middle of its work, without harm to the process.",
     ["inputs", "histories", "concurrency"], "every history of chunks, frames and packets, gaps, bursts, invalid and wrongly sized ones, rates and formats, stops in the middle of work, against the real codecs and threads",
     "Tests encode and decode one fixed stream with the codecs directly; none runs the blocks.",
     ["streamtasks/system/tasks/media/audioencoder.py", "streamtasks/system/tasks/media/audiodecoder.py", "streamtasks/system/tasks/media/videoencoder.py", "streamtasks/system/tasks/media/videodecoder.py", "streamtasks/system/tasks/media/audioresampler.py", "streamtasks/system/tasks/media/videoreformatter.py", "streamtasks/media/codec.py", "streamtasks/media/audio.py", "streamtasks/media/video.py", "streamtasks/media/packet.py"], [("VideoReformatter", "streamtasks/media/video.py"), ("Decoder", "streamtasks/media/codec.py"), ("AudioEncoderTask", "streamtasks/system/tasks/media/audioencoder.py")],
     ["content and times of the output", "pause state", "the end of the tasks and the process"], note="Codec.tla (identity chains, rate conversion) model checked; histories replayed on the tasks with PCM and raw video codecs and their real threads.")

prop("W01", "A request is handled by the most specific matching route, or reported missing",
     "A request path is handled by the first registered route whose pattern matches the whole path, with the path parameters the pattern names; when no route matches, the answer is not found, and an error in a handler yields an error response without affecting later requests.",
     ["inputs", "configurations"], "every set of patterns and every request path",
     "Tests use three fixed routes.",
     ["streamtasks/asgiserver.py"], [("path patterns and routing", "streamtasks/asgiserver.py PathPattern, ASGIRouter")],
     ["responses"], note="Web.tla (patterns as a matching relation, routing in order through nested routers) model checked; generated applications and request histories, concurrent ones included, replayed on ASGIServer/ASGIRouter.")
prop("W02", "A web request carried over the network is answered as if it were local",
     "An HTTP request forwarded through the network to an application reaches it with the same method, path, headers and body, and the requester sees the same response, however body parts are split and however many requests are in flight. If either side goes away the other is told and nothing stays open.",
     ["schedules", "inputs", "fault_sequences"], "every interleaving of concurrent requests, body splits and disconnects",
     "Tests run one request at a time.",
     ["streamtasks/asgi.py"], [("request tunnelling", "streamtasks/asgi.py")],
     ["requests seen by the application and responses seen by the requester"], note="Tunnel.tla: event streams of requests in both directions, with either side leaving at any point, receives in parallel and given up, runners stopped and restarted in workers of their own; plus complete concurrent requests with bodies split at random through HTTPContext handlers.")
prop("W03", "Registered web paths of tasks exist exactly while registered",
     "A path registered for a task is served by that task and listed once, from registration until it is unregistered or its task ends, regardless of repeated registrations; other paths are unaffected.",
     ["histories"], "every history of registrations, re-registrations and removals",
     "Tests do not cover it.",
     ["streamtasks/system/task_web.py"], [("path registration", "streamtasks/system/task_web.py")],
     ["responses of the web interface"], note="Paths.tla: registrations, path handlers, task hosts and tasks with pages at two web interfaces, model checked; generated histories (simultaneous registrations and removals, handlers that end, fail or wait for a missing interface, restarts of hosts) run on the real TaskWebBackend, TaskWebPathHandler, TaskHost and TaskManager; listings and the answerer and rewritten path of every request are validated.")
prop("W04", "Static files outside the published directory are never served",
     "A request for a static file is answered with exactly the content of the file of that name inside the published directory, or not found; no request path reaches a file outside it.",
     ["inputs"], "every request path, including dot segments, absolute and encoded paths and links",
     "Tests request one existing file.",
     ["streamtasks/asgiserver.py"], [("static file handler", "streamtasks/asgiserver.py")],
     ["responses"], note="Static.tla (directory tree with files and links coming and going) model checked; histories replayed on static_files_handler over a scratch directory, the served content compared.")
prop("W05", "Live views show all that happens, once and in order, and only while open",
     "A live view of a topic (of the network or of a topic space) shows every message and every pause of this topic that is published while it is open, and no others, with its content, in order and once; a view of the task hosts shows every registration and unregistration; a view of a deployment shows every end of one of its tasks. A topic is demanded from its provider exactly while at least one view of it is open, however views come and go; a view of something that does not exist is closed.",
     ["concurrency", "inputs"], "every history of views being opened and closed (properly or by vanishing), messages of every content, pauses, task hosts coming and going, and deployments",
     "No test opens a live view.",
     ["streamtasks/system/task_web.py", "streamtasks/utils.py", "streamtasks/asgi.py"], [("live view routes", "streamtasks/system/task_web.py"), ("make_json_serializable", "streamtasks/utils.py")],
     ["what the websockets are sent", "their ends", "the demand the provider sees"], note="Live.tla (views, topics, task hosts, a deployment) model checked; histories with several things at once replayed on a discovery, task manager, web interface and task hosts over real switches; websockets through the network; everything they are sent, their ends and the provider's demand compared.")

prop("W06", "Controls publish the value users set; displays show what they received",
     "A switch, slider, radio button or text input publishes each value that is set on its page at once, on the right topics and with the current time, and again after every repeat interval without a change (blank text is not published), and nothing else. A text display, status display or value bar holds exactly what the messages it received say (appended, separated and cut to its maximum length as configured); malformed messages and requests change nothing and are answered with an error. Whoever watches the value of such a block is sent every change of it, ending with the current value, for as long as they watch.",
     ["concurrency", "inputs", "time"], "every history of values being set (also several at once, and while earlier ones are sent), malformed requests, messages and their bursts, watchers coming and going, and passing time, for every such block and configuration",
     "No test opens the page of a block.",
     ["streamtasks/system/tasks/ui/controlbase.py", "streamtasks/system/tasks/ui/textdisplay.py", "streamtasks/system/tasks/ui/textinput.py", "streamtasks/system/tasks/ui/switchui.py", "streamtasks/system/tasks/ui/sliderui.py", "streamtasks/system/tasks/ui/radiobuttonsui.py", "streamtasks/system/tasks/ui/statusdisplay.py", "streamtasks/system/tasks/ui/valuedisplaybar.py"], [("UIBaseTask", "streamtasks/system/tasks/ui/controlbase.py"), ("UIControlBaseTask", "streamtasks/system/tasks/ui/controlbase.py")],
     ["messages on the out topics with their times", "the value over http", "what the websockets are sent", "answers"], note="Ui.tla (control and display blocks, time in ms) model checked; histories replayed on real task hosts behind a task manager and web interface in virtual time; messages, values, websocket contents and answers compared.")

OVERRIDES = {}
exec(open(os.path.join(ROOT, "tools", "claims.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "claims.py")) else None


def main():
  with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
      if p.get("drop"): continue
      a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"], "hook_needed": None}
      if p["state"]: a["state"] = p["state"]
      assert len(p["title"]) <= 80, p["id"]
      f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                          "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
  man = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": [],
         "notes": "TLA+/TLC. Every check: exhaustive model checking of the area's specification, scenarios generated from it, replay on the code in /repo, TLC validation of the recorded traces. No hooks in /repo are needed."}
  for p in P:
    if p.get("drop"): continue
    if p["note"]:
      man["checks"].append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']} quick", "thorough_cmd": f"python3 check.py {p['id']} thorough",
                            "technique": p["technique"] or "TLA+ specification, TLC model checking, model-generated scenarios, TLC trace validation",
                            "level": "model_checking", "level_note": p["note"]})
    else: man["not_applicable"].append({"property": p["id"], "reason": p["reason"]})
  with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f: json.dump(man, f, indent=1); f.write("\n")

if __name__ == "__main__": main()
