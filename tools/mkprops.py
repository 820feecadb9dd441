"""Writes properties.jsonl and MANIFEST.json from one place."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
C = "ipyparallel/client/"
K = "ipyparallel/controller/"
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), quantifier=dict(over=over, text=" ".join(text.split())),
                  why_tests_cant=" ".join(why.split()),
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe))))


prop("P01", "Partitioning a sequence and rejoining the parts is lossless and balanced",
     """Splitting any sequence of n items over q parts gives parts that together contain every item exactly once, whose sizes differ by
     at most one, in contiguous order for the block scheme and dealt cyclically for the round-robin scheme. Rejoining the parts
     (lists, tuples or arrays) gives back the original items in the original order and, for arrays, the original element type.
     A part number outside 0..q-1 is refused.""",
     ["inputs"], "every sequence, every length n >= 0, every number of parts q >= 1, every part number, both schemes",
     "Tests try a few lengths and part counts; off-by-one errors show only for particular n mod q.",
     [C + "map.py"], [("block and cyclic slicing", C + "map.py"), ("rejoining", C + "map.py concatenate, joinPartitions")],
     observe=["Map/RoundRobinMap getPartition, joinPartitions", "DirectView.scatter/gather"])
prop("P02", "A parallel map gives the builtin map's results in the builtin map's order",
     """Mapping a function over one or more sequences through a direct, broadcast or load-balanced view (blocking or not, chunked or not,
     ordered, and lazily with a bounded number outstanding) yields exactly the values the builtin map yields, in the same order and number,
     whatever the number of engines and the order of replies. When the function raises for some elements, asking for the results
     reports those failures, and with failures returned in place each takes the places of the elements whose task failed while all other
     values stay put. Input of unequal or zero length is handled as the builtin map handles it where the view accepts it.""",
     ["inputs", "schedules", "configurations"],
     "every function and input lengths, engine count, chunk size, view kind, distribution scheme, reply order, set of failing elements",
     "Tests use a handful of lengths and engines, with replies in the order a quiet machine gives.",
     [C + "remotefunction.py", C + "map.py", C + "view.py", C + "asyncresult.py"],
     [("splitting work into tasks", C + "remotefunction.py ParallelFunction"), ("rebuilding", C + "asyncresult.py AsyncMapResult"),
      ("bounded imap", C + "view.py LoadBalancedView.imap")],
     observe=["view.map/map_sync/imap", "AsyncMapResult iteration and get"])
prop("P03", "A dependency is satisfied, or impossible, exactly when its definition says so",
     """A dependency on a set of tasks, with its any/all and success/failure choices, counts as met exactly when all (or, for any, at least one)
     of the tasks have finished in an accepted way, and as unreachable exactly when the tasks already finished in a way that is not
     accepted make meeting it impossible; an empty dependency is always met and never unreachable, and both answers are never true at once.
     A function guarded by a required condition or required imports runs on an engine only if the condition holds there, and is otherwise
     reported as unmet without running.""",
     ["inputs", "histories"], "every set of tasks, every split into succeeded, failed and unfinished, every choice of flags; every guard function",
     "Tests check a few fixed sets; the flag combinations times task outcomes are not enumerated.",
     [K + "dependency.py", "ipyparallel/engine/kernel.py"],
     [("dependency algebra", K + "dependency.py Dependency.check, unreachable"), ("guards", K + "dependency.py depend, require, dependent")],
     observe=["Dependency.check/unreachable", "apply of a @depend/@require function"])
prop("P04", "Tasks go to an eligible engine chosen by the configured scheme within the limit",
     """A load-balanced task is only ever sent to a registered engine, and when a limit on outstanding tasks per engine is set no engine is ever
     sent a task while it already has that many unanswered. Among the engines a task may run on, the least-load scheme picks one with the fewest
     outstanding tasks (of those, the one given work longest ago) and the least-recently-used scheme picks the one given work longest ago;
     the random schemes pick some permitted engine.""",
     ["schedules", "histories", "configurations"],
     "every history of submissions, replies, engine arrivals and losses, every scheme and limit",
     "Tests run small task counts on an idle cluster and look at results, not at where and when tasks were sent.",
     [K + "task_scheduler.py"], [("choosers", K + "task_scheduler.py leastload, lru, twobin, plainrandom, weighted"),
                                 ("load accounting", K + "task_scheduler.py add_job, finish_job, available_engines, maybe_run")],
     [("loads", "outstanding tasks per engine, aligned with targets in LRU order", K + "task_scheduler.py")],
     ["frames sent to engines by the scheduler"])
prop("P05", "Tasks run only where and when their constraints allow; impossible ones fail",
     """A task starts only after its time dependencies are met, only on an engine in its target set (when given), only where its location
     dependencies are met, and never again on an engine where it already failed or was refused. A task whose dependencies can no longer be met, or
     that names itself or an unknown task, is answered with an impossible- or invalid-dependency error instead of waiting for ever; one
     whose waiting time limit passes is answered with a timeout error.""",
     ["schedules", "histories", "fault_sequences"],
     "every task graph, target set, retry count, order of replies, engine loss and arrival",
     "Tests build a few small graphs on a live cluster; interleavings with failures, retries and engine loss are not reached.",
     [K + "task_scheduler.py", K + "dependency.py"],
     [("placement filter", K + "task_scheduler.py maybe_run"), ("graph update", K + "task_scheduler.py update_graph"),
      ("failing impossible tasks", K + "task_scheduler.py fail_unreachable, dispatch_submission, job_timeout")],
     [("graph", "waiting dependents by task", K + "task_scheduler.py"), ("queue_map", "waiting tasks", K + "task_scheduler.py")],
     ["frames sent to engines; replies sent to clients"])
prop("P06", "Every task gets exactly one final reply and nothing runnable is left waiting",
     """Every submitted task is answered finally exactly once, with the value its successful run produced or an error, never both and never twice, also
     when engines die or are wrongly declared dead and answer late. A failing task is run at most retries+1 times and given up only once its retries
     are used up, and is never sent anywhere after its final answer. Whenever nothing is in flight, no task is waiting that some registered
     engine with room could run, and among tasks without constraints the earlier submitted starts first.""",
     ["schedules", "histories", "fault_sequences"],
     "every history of submissions, replies, failures, unmet conditions, engine deaths (true or false), arrivals and timeouts",
     "Lost or doubled tasks need particular orders of replies, deaths and graph scans that a live test cluster does not produce on demand.",
     [K + "task_scheduler.py", K + "scheduler.py"],
     [("result handling", K + "task_scheduler.py dispatch_result, handle_result, handle_unmet_dependency"),
      ("stranded tasks", K + "task_scheduler.py handle_stranded_tasks"), ("queue scans", K + "task_scheduler.py update_graph, save_unmet")],
     [("pending", "tasks assigned per engine", K + "task_scheduler.py"), ("retries", "retries left", K + "task_scheduler.py"),
      ("queue", "waiting tasks in order", K + "task_scheduler.py")],
     ["replies on the client socket; frames on the engine socket"])
prop("P07", "A broadcast reaches each target exactly once and its replies are complete",
     """A message sent to a set of targets through the broadcast tree is delivered to each connected target exactly once and to no other engine,
     for any tree depth and any number and order of engines. Without coalescing every target's reply reaches the client under that target's own
     message; with coalescing the client gets one reply only after every target has answered, holding each target's own reply
     labelled with that target or, if some target failed, one such failure, and concurrent broadcasts never mix.""",
     ["inputs", "schedules", "configurations"],
     "every tree depth, target set, number of concurrent broadcasts, and order of replies",
     "Tests run one tree shape with a few engines and one broadcast at a time.",
     [K + "broadcast_scheduler.py", C + "view.py", C + "client.py"],
     [("routing", K + "broadcast_scheduler.py dispatch_submission"), ("coalescing", K + "broadcast_scheduler.py coalescing_reply"),
      ("per-target messages", C + "view.py BroadcastView")],
     [("accumulated replies", "per original message", K + "broadcast_scheduler.py")],
     ["messages received by engines; the AsyncResult of a broadcast apply"])
prop("P08", "A silent engine is declared dead after the allowed misses, a beating one never",
     """An engine whose heartbeat answers arrive before the following beat is over is never declared dead; one that stops answering is declared dead, once, at the beat where its
     consecutive misses first exceed the configured allowance, and at no other time. Any answer to the current or the previous beat clears the count, other responses change nothing,
     and each newly beating engine is announced once, again after having been declared dead.""",
     ["schedules", "histories", "fault_sequences"],
     "every sequence of beats and of answered, late, missing, duplicated and foreign responses from any number of hearts",
     "Tests do not drive the monitor with chosen response timings.",
     [K + "heartmonitor.py"], [("beat bookkeeping", K + "heartmonitor.py beat, handle_pong, handle_heart_failure")],
     [("hearts/responses/on_probation", "who is alive, answered, missed", K + "heartmonitor.py")], ["heart-failure and new-heart handlers"])
prop("P09", "Engine ids are unique, registration is consistent, and departures are complete",
     """Two engines registered at the same time never share an id, an identity in use is never registered twice, and an accepted engine is announced
     exactly once after its heartbeat is seen. After an engine leaves, no table of the controller still lists it as present and its identity can no
     longer be addressed, a connecting client is told exactly the engines then registered, and every task it had not answered is reported as an error.""",
     ["histories", "schedules", "fault_sequences"],
     "every history of registrations, heartbeats, timeouts, duplicate identities, departures, connections",
     "Tests register engines one after another without races, refusals or timeouts.",
     [K + "hub.py"], [("id allocation", K + "hub.py _next_id, register_engine, finish_registration"), ("departure", K + "hub.py unregister_engine, _handle_stranded_msgs")],
     [("ids, by_ident, engines, hearts, incoming_registrations", "who is present", K + "hub.py")], ["registration replies, notifications, connection replies"])
prop("P10", "The controller's records answer status, result and purge requests truthfully",
     """For every task the controller has seen, asking for its status says pending while no reply has been recorded and completed afterwards, asking for its
     result returns exactly the recorded reply, and an unknown task is an error. Queue status counts per engine are the tasks
     actually queued, finished or assigned there. Purging removes exactly the named finished results (or those of the named engines), refuses to purge
     pending ones without removing anything else, and resubmitting runs a copy under a new identity linked to the original.""",
     ["histories", "inputs"], "every history of submissions, destinations, replies, deaths, purges, resubmissions and queries",
     "Tests query after a few simple runs.",
     [K + "hub.py"], [("message monitoring", K + "hub.py save_*"), ("requests", K + "hub.py get_results, purge_results, queue_status, resubmit_task")],
     [("queues, tasks, completed, pending, unassigned, all_completed", "per-engine and global task sets", K + "hub.py")], ["client.result_status, get_result, queue_status, purge_results"])
prop("P11", "Database queries return exactly the matching records with the asked fields",
     """On every bundled local database, a query returns exactly the stored records that satisfy every condition of the query (equality, comparisons, membership,
     existence, with the documented operator meanings), with exactly the requested fields plus the message id, and never alters the stored data or the
     query. Adding, updating and dropping records change exactly the named records, an update of an absent record never creates one, a read of an absent one is
     an error, the history lists the ids of all submitted messages by submission time, and both local databases agree on what both support (the in-memory one
     alone has $exists, $all and $mod).""",
     ["inputs", "histories"], "every set of records, every query over every supported operator and operand (including absent values), every sequence of add, update, drop",
     "Tests use a few queries on generated records; operators with missing values and mixed conditions are not covered.",
     [K + "dictdb.py", K + "sqlitedb.py"],
     [("match", K + "dictdb.py CompositeFilter, filters, DictDB"), ("SQL rendering", K + "sqlitedb.py _render_expression")],
     [("_records", "stored records", K + "dictdb.py")], ["add_record, get_record, find_records, update_record, drop_*, get_history"])
prop("P12", "The in-memory database stays within limits and forgets only the oldest results",
     """With a record limit or a size limit set, after every operation the in-memory database holds no more records or buffer bytes than the limit
     allows, its size account always equals the bytes actually held, only the oldest records are
     forgotten, and asking for a forgotten record says it was culled rather than unknown. Databases do not affect one another.""",
     ["histories", "configurations"], "every limit, cull fraction and sequence of additions, updates and drops",
     "Tests add records in one pattern with one limit.",
     [K + "dictdb.py"], [("culling", K + "dictdb.py _maybe_cull, _cull_oldest"), ("size account", K + "dictdb.py _add_bytes, _drop_bytes")],
     [("_buffer_bytes", "bytes held", K + "dictdb.py"), ("_culled_ids", "forgotten ids", K + "dictdb.py")], ["DictDB operations"])
prop("P13", "Objects survive serialization into messages and back",
     """Serializing any supported object or call (nested lists, tuples, dicts, byte strings, arrays, memory views, functions) and deserializing the resulting
     buffers gives back an equal object of the same type, whatever the thresholds and whichever buffers travel separately. Deserializing consumes exactly the
     object's own buffers, leaving following ones untouched, and for a call the function, arguments, keyword names and values all come back in place.""",
     ["inputs", "configurations"], "every value built from supported types, every nesting, size around every threshold, every number of trailing buffers",
     "Tests use a few shapes; the buffer boundary logic depends on sizes and counts.",
     ["ipyparallel/serialize/serialize.py", "ipyparallel/serialize/canning.py"],
     [("buffer splitting", "ipyparallel/serialize/serialize.py serialize_object, _extract_buffers, _restore_buffers"), ("calls", "ipyparallel/serialize/serialize.py pack_apply_message, unpack_apply_message")],
     observe=["serialize_object/deserialize_object, pack_apply_message/unpack_apply_message"])
prop("P14", "A canned object behaves like the original wherever it is uncanned",
     """Canning then uncanning a function (with defaults, keyword-only defaults, closures, annotations), class, partial, array, byte string, range, slice, reference or
     container of these gives an object that behaves as the original: same results for every call, same contents, dtype and shape. References are resolved in
     the namespace they are uncanned in, the original object is not altered, and containers without special content come back as themselves.""",
     ["inputs", "programs"], "every function signature and closure, array shape and dtype (also empty, zero-dimensional, non-contiguous, object and structured), nesting of containers",
     "Tests can a few functions and arrays.",
     ["ipyparallel/serialize/canning.py"], [("can/uncan", "ipyparallel/serialize/canning.py CannedFunction, CannedArray, can, uncan")],
     observe=["can, uncan"])
prop("P15", "Asynchronous results resolve once, truthfully, and in submission order",
     """A result handle is ready exactly when every message it covers has its reply (and, where output is awaited, its output is complete), never reverts to
     not ready, and reports success exactly when no covered call failed. Its values, metadata, engine ids and output come in submission order whatever order
     replies arrive in, asking before readiness times out without spoiling a later request, failures come up as the remote error each time they are asked for,
     and combined futures resolve only when all their parts have.""",
     ["schedules", "histories"], "every number of messages, reply order, subset of failures, and interleaving of queries with arrivals",
     "Tests see whichever order a live cluster produces.",
     [C + "asyncresult.py", C + "futures.py"], [("resolution", C + "asyncresult.py _resolve_result, _resolve_output, get, wait"), ("combination", C + "futures.py multi_future")],
     observe=["AsyncResult ready/successful/get/wait/iteration/metadata/progress"])
prop("P16", "Remote errors reach the user with their identity, place and grouping intact",
     """A remote failure arrives as an error carrying the original exception's name, message and traceback text and the engine it happened on, and reraising or
     pickling it keeps them. Collecting the outcomes of several calls returns the values when none failed, and otherwise reports every failure exactly
     once in order, groups among them flattened into their members, each labelled with its engine. Wrapping never fails, whatever the
     exception's arguments or text.""",
     ["inputs", "fault_sequences"], "every mixture of successes, failures and nested groups; every exception type, arguments and text",
     "Tests raise a few simple exceptions on a few engines.",
     ["ipyparallel/error.py"], [("wrap/unwrap", "ipyparallel/error.py wrap_exception, unwrap_exception"), ("collect", "ipyparallel/error.py collect_exceptions, CompositeError")],
     observe=["RemoteError, CompositeError, client get"])
prop("P17", "The client's books agree with the network: outstanding, history, results, deaths",
     """A message is outstanding from submission until its reply or the loss of its engine is processed and not after, appears exactly once in the
     history in submission order, and waiting returns true exactly when nothing awaited is outstanding. When an engine is lost, each unanswered message sent
     directly to it completes with an engine error and no other does. The set of engine ids is exactly those registered and not unregistered, in
     order, and purging or dropping local results removes exactly the chosen ones and refuses unfinished ones.""",
     ["histories", "schedules", "fault_sequences"], "every interleaving of submissions, replies, registrations, losses, waits, purges and view use",
     "Tests rarely lose engines and never choose message orders.",
     [C + "client.py", C + "view.py"], [("bookkeeping", C + "client.py _send, _handle_apply_reply, _handle_stranded_msgs, _unregister_engine"), ("views", C + "view.py sync_results, save_ids, spin")],
     [("outstanding, history, results, metadata, _outstanding_dict", "the books", C + "client.py")], ["client.outstanding, client.history, view.history, client.wait, client.ids"])
prop("P18", "Target selection means what indexing the list of engines means",
     """Every way of naming engines (an id, a list or other collection of ids, 'all', nothing, a slice, a negative index, a view's own targets) selects exactly the registered
     engines that indexing the sorted list of ids would select, in that order, and unknown ids, empty selections and wrong types are refused without sending
     anything. A view's targets, its length and the engines its calls reach agree, and views for all engines follow the engines present when called.""",
     ["inputs", "histories"], "every set of registered ids (also with gaps after departures) and every target expression",
     "Tests use a few expressions with ids 0..n-1.",
     [C + "client.py", C + "view.py"], [("resolution", C + "client.py _build_targets, __getitem__, direct_view")], observe=["client[...] .targets; engines reached by apply"])
prop("P19", "View options reach the messages they govern, temporary ones are undone",
     """Options set on a view (targets, retries, time and location dependencies, timeout, block, track, label) govern exactly the calls made while they are set, are carried unaltered in
     those calls' messages, and options given for one block or one call are back to their former values afterwards, also when the block or call raises. Unknown
     or invalid options are refused and change nothing, and a view's dependencies on results name exactly those results' messages.""",
     ["inputs", "histories"], "every combination and order of options, nested temporary settings, calls that raise, every form of dependency argument",
     "Tests set a few options one at a time.",
     [C + "view.py"], [("flags", C + "view.py set_flags, temp_flags, _set_follow_after, _render_dependency"), ("submission", C + "view.py LoadBalancedView._really_apply, DirectView._really_apply")],
     observe=["metadata of messages sent; view attributes"])
prop("P20", "An engine answers each request once and never runs what was aborted",
     """An engine answers each apply request exactly once: with the function's value, or with the raised error, or as aborted if it was aborted before it started, in which case the function
     is never run; unmet conditions are marked as such. The call sees the sent arguments, its names do not leak into or overwrite the user's namespace, and execution on
     engines assigns exactly the pushed names and returns exactly the pulled ones. Aborting names exactly the messages given, all pending ones if none are given, and
     clearing removes all user names.""",
     ["inputs", "histories", "fault_sequences"], "every function, arguments, outcome, order of aborts and requests, and namespace content",
     "Tests exercise ordinary calls; aborts race and are hard to time.",
     ["ipyparallel/engine/kernel.py", C + "client.py"], [("apply", "ipyparallel/engine/kernel.py do_apply, apply_request"), ("abort", "ipyparallel/engine/kernel.py abort_request, should_handle")],
     [("aborted", "message ids to refuse", "ipyparallel/engine/kernel.py")], ["replies of the engine; user namespace after calls"])
prop("P21", "Cluster records and launchers keep one truthful state through their life",
     """A cluster's saved description, loaded again, describes the same cluster (identity, profile, controller and engine sets), its file exists exactly while there is something running to describe, and
     unknown or malformed content is refused. A launcher goes from before to running to after, never back, runs each stop callback exactly once with the exit information
     (also when registered late), and a set of engines is stopped only when all its members are, reporting each member's exit.""",
     ["histories", "inputs", "fault_sequences"], "every order of starting, stopping, failing members and callbacks; every cluster state content",
     "Tests start and stop real processes in one order.",
     ["ipyparallel/cluster/cluster.py", "ipyparallel/cluster/launcher.py"],
     [("state", "ipyparallel/cluster/launcher.py notify_start, notify_stop, on_stop, LocalEngineSetLauncher"), ("persistence", "ipyparallel/cluster/cluster.py to_dict, from_dict, write_cluster_file")],
     [("state", "before, running, after", "ipyparallel/cluster/launcher.py")], ["BaseLauncher subclasses; Cluster.to_dict/from_dict"])
prop("P22", "Addresses, dates and names are translated without loss",
     """Rewriting connection addresses (splitting urls, disambiguating hosts and wildcard addresses) keeps protocol and port and yields an address naming the same endpoint, and malformed ones are refused.
     Dates keep their instant through conversion to text and back, attribute dictionaries behave as dictionaries, the reverse view of a reverse dictionary is always its exact
     inverse as long as values are distinct, and numeric dictionary keys that JSON turned into text are restored wherever they are nested.""",
     ["inputs"], "every protocol, host form, port; every datetime with or without zone; every sequence of dictionary operations",
     "Tests contain a few literal addresses.",
     ["ipyparallel/util.py"], [("urls", "ipyparallel/util.py split_url, disambiguate_url, disambiguate_ip_address"), ("dictionaries", "ipyparallel/util.py ReverseDict, Namespace")],
     observe=["util functions"])
prop("P23", "A message that is not correctly signed has no effect",
     """With a signing key set, a message whose signature is missing or wrong is dropped by the controller, the schedulers, the client and the engines' nannies, and a repeated one by all of these except the
     schedulers: nothing is run, forwarded, recorded, registered or resolved because of it, later correct messages are handled as if it had never come, and the receiver keeps working.""",
     ["inputs", "fault_sequences"], "every message kind at every receiver, with any corruption of its frames",
     "Tests send only well-formed, correctly signed messages.",
     [K + "hub.py", K + "task_scheduler.py", K + "broadcast_scheduler.py", C + "client.py"],
     [("checks before use", "dispatch_* methods of hub, schedulers, client")], observe=["state and outgoing frames of each receiver"])
prop("P24", "Client calls are safe from several threads at once over the real network",
     """Submissions, waits and result queries made from several threads at once, while the client's network thread delivers replies, lose no reply, mix up no results and cannot deadlock.""",
     ["schedules"], "every interleaving of user threads and the network thread at the level of bytecode and sockets",
     "Tests see the few interleavings the machine happens to produce.",
     [C + "client.py", C + "asyncresult.py"], [("hand-over between threads", C + "client.py _send, _io_main")], observe=["client use from threads"])
prop("P25", "Work is eventually finished while engines remain",
     """As long as the controller and some engine keep running and the network delivers, every runnable task is eventually run and answered and every blocking wait without time limit eventually returns.""",
     ["schedules", "histories"], "every infinite fair execution",
     "Liveness cannot be observed by finite tests.",
     [K + "task_scheduler.py", C + "client.py"], [("event loops", K + "task_scheduler.py, client.py")], observe=["completion of tasks"])
NA = {
    "P24": "contracts verified function by function describe sequential executions; the interleaving of the client's network thread and user threads at bytecode and socket level is outside what the verifier's semantics (or any contract within reach on CPython code) can express. The single-threaded projections are claimed under P15 and P17.",
    "P25": "a liveness statement over infinite fair executions of event loops and sockets; deductive contracts here are partial correctness. Its safety core (nothing runnable is left waiting when the network is quiet) is claimed under P06.",
}
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
import contracts  # noqa: E402
from contracts.props import PROPS  # noqa: E402

REG = contracts.load()

claimed = [p["id"] for p in P if p["id"] in PROPS]
for p in P:
    if p["id"] not in PROPS and p["id"] not in NA:
        NA[p["id"]] = "not built yet"


def how(i, q):
    n = sum(i in c.props for c in REG.all) + sum(i in l["props"] for l in REG.lemmas.values())
    if n:
        return dict(
            technique="contract-based deductive verification: contracts on the functions in /repo, VCs generated from their current source (pyver), discharged by z3"
                      " function by function; plus a bounded, labelled check of the real code for what no contract reaches",
            level="proof", level_note=q.get("note", "functions under contract are proved for all inputs; what links them into the property, and functions outside "
                                                    "the verifier's reach, is covered by the bounded check (see evidence: not_decided_by_proof)"))
    return dict(technique="bounded check of the real code against an independent model (stands in for contracts not within the verifier's reach; nothing is proved)",
                level="exploration", level_note=q.get("note", "bounded stand-in: seeded random and enumerated cases within the stated bounds; see evidence"))


checks = []
for i in claimed:
    q = PROPS[i]
    checks.append(dict(
        property=i, quick_cmd=f"python3-vt check.py {i} --tier quick", thorough_cmd=f"python3-vt check.py {i} --tier thorough",
        evidence_file=f"evidence/{i}.json",
        **how(i, q)))
m = dict(version=1, setup_cmd="python3-vt -m pyver.selftest", checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in NA.items() if k not in claimed],
         notes="pyver/: VC generator for Python; contracts/: contracts on the real functions; drivers/: bounded checks of the real code; known-findings.txt: fixed defects and findings.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
