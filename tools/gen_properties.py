#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text of the properties lives here)."""
import json, os

B = "unidist/core/backends/"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": qtext},
            "why_tests_cant": why,
            "anchors": {
                "files": files,
                "mechanism": [{"name": n, "where": w} for n, w in mech],
                "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                "observe_at": list(observe),
                "hook_needed": None,
            },
        }
    )


BACKS = ["pyseq", "pymp", "dask", "ray", "mpi"]

prop(
    "C01",
    "References returned by a remote call match the requested number of results",
    "For every remote function and actor method on every backend, a call yields no reference, one reference or a list of n references when the number of results in effect is 0, 1 or n > 1; the number in effect is the one given with the call, else the declared one, else 1. The i-th reference always resolves to the i-th element of the value the task returned (to the whole value when one result is requested). A result with fewer elements than requested fails the task instead of leaving references unresolved or mispaired.",
    ["inputs", "programs", "configurations"],
    "every backend, every remote function or actor method, every declared and per-call number of results, every returned value",
    "Tests call a few functions with 1 or 2 results; the pairing has to hold for every count, every precedence combination and every backend.",
    [B + b + "/remote_function.py" for b in BACKS] + [B + b + "/actor.py" for b in BACKS] + [B + "pyseq/core/api.py", B + "pymp/core/api.py", B + "pymp/core/process_manager.py", B + "mpi/core/worker/task_store.py", B + "mpi/core/local_object_store.py", "unidist/core/base/remote_function.py", "unidist/core/base/actor.py"],
    [("wrapping of the submitted ids into references", "*RemoteFunction._remote, *ActorMethod._remote"), ("pairing of ids and result elements", "pyseq submit, pymp Worker.run, mpi TaskStore")],
)
prop(
    "C02",
    "Arguments reach the task in order, under their names, with references resolved",
    "A task or actor method receives the positional arguments in the order given and the keyword arguments under the names given, with nothing added, lost or duplicated, and every reference passed directly as an argument is replaced by the value it stands for. References inside containers keep their position, and the container keeps its type and length. Only the documented option names are taken out of the keyword arguments of a call. A remote function that a task takes along to another process can be called there.",
    ["inputs", "programs", "configurations"],
    "every backend, every argument list, every mix of plain values, references and containers of references",
    "Tests pass one or two simple arguments; argument forwarding crosses several layers per backend and has to be exact for every shape of argument list.",
    ["unidist/core/base/common.py", "unidist/core/base/remote_function.py", "unidist/core/base/actor.py", B + "common/utils.py", B + "pyseq/core/api.py", B + "pymp/core/process_manager.py", B + "mpi/core/common.py", B + "mpi/core/worker/task_store.py"] + [B + b + "/remote_function.py" for b in BACKS] + [B + b + "/actor.py" for b in BACKS],
    [("unwrap_object_refs / materialize_data_ids", "common/utils.py, mpi/core/common.py"), ("*args/**kwargs forwarding", "remote, _remote, submit")],
)
prop(
    "C03",
    "Options a backend does not support are rejected, never silently ignored",
    "On a backend without resource-based scheduling, asking for a number of CPUs or for custom resources, whether at declaration or with the call, raises an error before anything is submitted; on a backend with it, the requested values are the ones passed on, a value given with the call taking precedence over a declared one. Remote functions and actor classes called directly instead of remotely raise an error, and declaring something remote that is neither a function nor a class, or with a number of results that is not a non-negative integer, or with a number of results for a class, raises an error.",
    ["inputs", "configurations"],
    "every backend, every combination of declared and per-call options",
    "The tests never use unsupported options on most backends; ignoring one is invisible to them.",
    [B + b + "/remote_function.py" for b in BACKS] + [B + b + "/actor.py" for b in BACKS] + ["unidist/api.py", "unidist/core/base/backend.py", "unidist/core/base/remote_function.py", "unidist/core/base/actor.py"],
    [("NotImplementedError guards", "*_remote"), ("decorator validation", "unidist/api.py remote")],
)
prop(
    "C04",
    "A failing task fails exactly its own references, every time they are read",
    "When a task, an actor method or the resolution of its arguments raises, or its result cannot be stored, every reference of that task resolves to that failure: each later retrieval of it, not only the first, raises. A task that takes such a reference as an argument fails in turn without running its function. The failure neither ends the process that executed the task nor changes the outcome of other tasks, and the task counts as completed.",
    ["inputs", "programs", "histories", "fault_sequences"],
    "every task that fails at any point, every later history of retrievals and dependent tasks",
    "Tests raise one simple exception once; failures can occur at argument resolution, execution, unpacking or storing and the reference can be read any number of times.",
    [B + "pyseq/core/api.py", B + "pyseq/core/object_store.py", B + "pymp/core/process_manager.py", B + "pymp/core/object_store.py", B + "mpi/core/worker/task_store.py", B + "mpi/core/worker/loop.py", B + "mpi/core/controller/api.py"],
    [("try/except around execution and storing", "pyseq submit, pymp Worker.run, TaskStore.execute_received_task"), ("raise of stored exceptions", "get of the stores")],
)
prop(
    "C05",
    "Waiting splits the references into a true partition",
    "Waiting for n (at least 1) out of some distinct references returns two lists that together contain each reference exactly once, the first holding exactly n references (all of them if n equals their number), each of whose tasks has completed, successfully or not. Nothing is reported ready that has not completed, and nothing that was passed in is lost or duplicated.",
    ["inputs", "schedules", "histories"],
    "every list of distinct references, every n, every completion order",
    "Tests wait on a few tasks with fixed sleeps; the partition has to hold for every completion order.",
    [B + b + "/backend.py" for b in BACKS] + [B + "pymp/core/object_store.py", B + "pymp/core/api.py", B + "pyseq/core/api.py", B + "mpi/core/controller/api.py", B + "mpi/core/monitor/loop.py", "unidist/core/base/backend.py"],
    [("partitioning loops", "wait of each backend, WaitHandler of the monitor")],
)
prop(
    "C06",
    "Retrieval returns the referenced values in the order asked for",
    "Retrieving one reference returns its value, and retrieving a list returns a list of the same length whose i-th element is the value of the i-th reference, repeated references included. Storing an object, other than an exception (which stands for a failure), yields one new reference that resolves to that object, whatever its type. A retrieval waits until every requested value is available.",
    ["inputs", "histories", "schedules"],
    "every list of references in every order with repetitions, every stored object",
    "Tests retrieve short homogeneous lists; order and multiplicity must hold for every list.",
    ["unidist/api.py", "unidist/core/base/backend.py"] + [B + b + "/backend.py" for b in BACKS] + [B + "pyseq/core/api.py", B + "pyseq/core/object_store.py", B + "pymp/core/api.py", B + "pymp/core/object_store.py", B + "mpi/core/controller/api.py", B + "mpi/core/local_object_store.py"],
    [("get/put of each backend", "core/backends/*/backend.py and their cores")],
)
prop(
    "C07",
    "The stored form of an object is not changed by anyone who reads or sends it",
    "With MPI, the serialized form kept for an object is a private copy made when it is stored: later changes to the original object do not affect what other processes receive or what the process that put it reads, and reading, sending or decoding it any number of times leaves it unchanged, so that every process gets the same value. Objects read from shared memory are read-only views, so no process can modify another's copy.",
    ["inputs", "histories", "programs"],
    "every object, every history of mutations of the original and of repeated sends and reads",
    "Aliasing only shows when an object is mutated or sent again after being cached, which the tests do not do.",
    [B + "mpi/core/local_object_store.py", B + "mpi/core/shared_object_store.py", B + "mpi/core/serialization.py", B + "mpi/core/communication.py", B + "mpi/core/controller/common.py"],
    [("cache_serialized_data copies", "LocalObjectStore"), ("toreadonly views", "SharedObjectStore")],
)
prop(
    "C08",
    "MPI processes agree on every message they exchange",
    "Every message one MPI process sends to another is received by it with the same kind, encoding, number and order of parts, and provides all the fields the receiver reads; every operation that can be sent to a kind of process is handled there, and its payload is consumed even when the operation itself is skipped. A process that waits for a reply gets exactly one, sent to it by the process it waits for.",
    ["histories", "schedules", "programs"],
    "every operation, every sender and receiver, every history of operations",
    "A mismatch on a rare operation shows only as a hang or a misread message under that operation; the tests exercise few of them in few orders.",
    [B + "mpi/core/communication.py", B + "mpi/core/common.py", B + "mpi/core/controller/api.py", B + "mpi/core/controller/common.py", B + "mpi/core/controller/actor.py", B + "mpi/core/controller/garbage_collector.py", B + "mpi/core/worker/loop.py", B + "mpi/core/worker/task_store.py", B + "mpi/core/worker/request_store.py", B + "mpi/core/monitor/loop.py", B + "mpi/core/shared_object_store.py"],
    [("operation dispatch", "worker_loop, monitor_loop"), ("send/receive pairs", "communication.py")],
)
prop(
    "C09",
    "Asynchronous sends keep their data alive until they complete",
    "Every asynchronous send is tracked together with the data being sent until MPI reports that it has completed; neither is dropped earlier, and a completed one does not make an uncompleted one be forgotten. Before a process announces that it is ready to exit or exits, all its outstanding sends have been waited for.",
    ["schedules", "histories"],
    "every asynchronous send, every completion order",
    "Releasing a buffer early corrupts a message only under particular timing.",
    [B + "mpi/core/async_operations.py", B + "mpi/core/communication.py", B + "mpi/core/controller/api.py", B + "mpi/core/controller/common.py", B + "mpi/core/controller/actor.py", B + "mpi/core/worker/loop.py", B + "mpi/core/worker/task_store.py", B + "mpi/core/controller/garbage_collector.py"],
    [("handle lists", "AsyncOperations and every isend_* caller")],
)
prop(
    "C10",
    "No accepted task or data request is ever dropped or executed twice",
    "With MPI, a task whose arguments are not available yet, and a request for data that is not available yet, is kept until it can be served and is served exactly once when the data becomes available; every way data can become available leads to a re-check of what was waiting. Data that is missing but whose owner is known is asked for, and is not asked for again until it arrives. Only the shutdown discards waiting work.",
    ["schedules", "histories"],
    "every arrival order of tasks, data and requests",
    "Lost wake-ups depend on message orders the tests do not produce.",
    [B + "mpi/core/worker/loop.py", B + "mpi/core/worker/task_store.py", B + "mpi/core/worker/request_store.py"],
    [("pending lists", "TaskStore"), ("request maps", "RequestStore")],
)
prop(
    "C11",
    "Cleaning up never removes data that a submitted task may still need",
    "With MPI, data is deleted on the workers only after the driver holds no reference to it and every submitted task has been reported completed, where each submitted task, actor calls included, counts exactly once on both sides. Only identifiers whose last reference is gone are sent for deletion, each of them eventually, and every store drops all it holds for them and nothing else. Identifiers copied to other processes never trigger deletion there.",
    ["schedules", "histories", "programs"],
    "every interleaving of submissions, completions, reference drops and clean-ups",
    "A premature deletion needs a particular order of reference drop, submission and completion.",
    [B + "mpi/core/controller/garbage_collector.py", B + "mpi/core/common.py", B + "mpi/core/local_object_store.py", B + "mpi/core/controller/api.py", B + "mpi/core/controller/actor.py", B + "mpi/core/monitor/loop.py", B + "mpi/core/monitor/shared_memory_manager.py", B + "mpi/core/worker/loop.py"],
    [("task counters", "GarbageCollector, TaskCounter"), ("finalisation of ids", "MpiDataID.__del__")],
)
prop(
    "C12",
    "Shared-memory objects are published complete and freed only when unused",
    "An object in MPI shared memory becomes visible to other processes only after all its bytes have been written, and a process uses it only after checking that the memory still holds that very object. Every process that starts using it adds to its count, and takes back exactly what it added when its last use is gone; all these updates are made under the lock of the shared table. The memory is given back only when the count is zero.",
    ["schedules", "histories"],
    "every interleaving of writers, readers, releases and clean-ups on a host",
    "Races between processes on the shared table are practically unreachable for the tests, which run with the shared store off or with one reader.",
    [B + "mpi/core/shared_object_store.py", B + "mpi/core/monitor/shared_memory_manager.py", B + "mpi/core/common.py", B + "mpi/core/communication.py"],
    [("service table with reference counts", "SharedObjectStore"), ("WinLock", "shared_object_store.py / common")],
)
prop(
    "C13",
    "Shared-memory ranges handed out never overlap and always fit the object",
    "Two live objects never occupy overlapping ranges of MPI shared memory or of its table, a range is as long as the object it was requested for and lies within the memory, and a released range can be handed out again as a whole. When no range is large enough the request fails instead of returning a smaller or occupied one.",
    ["histories", "inputs"],
    "every sequence of reservations and releases of every size",
    "Fragmentation patterns depend on the history of sizes and releases; tests reserve a handful of ranges.",
    [B + "mpi/core/monitor/shared_memory_manager.py", B + "mpi/core/shared_object_store.py"],
    [("free list", "FreeMemoryRange"), ("reservations", "SharedMemoryManager")],
)
prop(
    "C14",
    "Shutdown of MPI is orderly and reaches every process exactly once",
    "Shutting down cancels every worker, each worker drops its waiting work and reports to the same monitor, which, once all workers have reported, tells every other process, and finally the driver, to exit; no process finalizes MPI before it has been told to. Shared memory is released before MPI is finalized, finalizing happens once, and repeating the shutdown, leaving the interpreter or receiving a termination signal is safe.",
    ["schedules", "histories", "fault_sequences"],
    "every state the processes may be in when the shutdown starts",
    "The tests end by killing the processes; a wrong order hangs or aborts only sometimes.",
    [B + "mpi/core/controller/api.py", B + "mpi/core/worker/loop.py", B + "mpi/core/monitor/loop.py", B + "mpi/core/shared_object_store.py", B + "mpi/utils.py"],
    [("CANCEL / READY_TO_SHUTDOWN / SHUTDOWN handshake", "api.shutdown, worker_loop, monitor_loop")],
)
prop(
    "C15",
    "Configuration values follow one precedence order and are always validated",
    "The value of a parameter is the one set in the program, else the one in its environment variable, else the default, and the origin reported with it is that source. A value, wherever it comes from, is checked and converted to the parameter's type before it is returned: setting a value that is not of the type raises and leaves the parameter unchanged, and reading never returns one that is not of the type or not among the parameter's choices but raises. Setting one parameter does not change another.",
    ["inputs", "configurations", "histories"],
    "every parameter, every value and order of setting",
    "Tests set a few values of a few parameters; the rules have to hold for every parameter type and every order.",
    ["unidist/config/parameter.py", "unidist/config/backends/common/envvars.py", "unidist/config/backends/mpi/envvars.py", "unidist/config/backends/ray/envvars.py", "unidist/config/backends/dask/envvars.py"],
    [("Parameter.get / put / subscribe, _TYPE_PARAMS", "unidist/config/parameter.py")],
)
prop(
    "C16",
    "Processes started by the MPI backend run with the driver's configuration",
    "Every process the MPI backend starts sees the same values of all configuration parameters that matter to it as the driver, even those set only within the program, and every environment variable of the requested runtime environment exactly as given. No value, whatever characters it contains, changes or breaks the start of a process, and exactly the required number of processes is started.",
    ["inputs", "configurations"],
    "every configuration and every string value",
    "Tests start MPI with default settings; quoting and forwarding have to hold for every value.",
    [B + "mpi/core/controller/api.py", "unidist/config/backends/mpi/envvars.py", "unidist/config/backends/common/envvars.py"],
    [("construction of the start-up program of spawned processes", "mpi controller init")],
)
prop(
    "C17",
    "Every operation of the API acts on the one backend that was selected",
    "Initialization sets up exactly the backend selected by the configuration, raises for an unknown one, and doing it again changes nothing; each operation of the public interface performs the operation of the same name on that backend, with the arguments given (put initializes it first if needed). Every backend implements the whole interface; an operation it has no way to perform raises an error (shutting down the sequential backend has nothing to do).",
    ["configurations", "programs"],
    "every backend, every operation of the interface",
    "Each test run uses one backend and a subset of the operations.",
    ["unidist/api.py", "unidist/__init__.py", "unidist/core/base/backend.py", "unidist/core/base/utils.py"] + [B + b + "/backend.py" for b in BACKS],
    [("BackendProxy", "core/base/backend.py"), ("init_backend / get_backend_proxy", "core/base/utils.py")],
)
prop(
    "C18",
    "An actor is one object whose calls run in order where it lives",
    "Creating an actor creates exactly one instance, in one process, with the arguments given, and every call through any handle to it, copies of the handle that a backend lets be sent to other processes included, runs on that instance; calls made by one process run in the order in which they were made. The process of an actor is not given other actors or tasks by the driver while a handle exists there, and is available again afterwards.",
    ["schedules", "histories", "programs"],
    "every actor, every history of calls and copies of handles",
    "Tests call an actor a few times in sequence; ordering with pending arguments and copied handles is not exercised.",
    [B + "mpi/core/controller/actor.py", B + "mpi/core/worker/loop.py", B + "mpi/core/worker/task_store.py", B + "mpi/core/controller/common.py", B + "pymp/core/actor.py", B + "pymp/core/process_manager.py", B + "pyseq/actor.py", B + "ray/actor.py", B + "dask/actor.py", "unidist/core/base/actor.py"],
    [("ACTOR_CREATE only by the creator", "mpi Actor"), ("rank reservation", "RoundRobin"), ("grab_worker/free_worker", "ProcessManager")],
)
prop(
    "C19",
    "What MPI serialization encodes, it decodes to the same structure",
    "Every kind of message the MPI backend encodes is decoded by the branch that inverts it: identifiers, containers, large buffers and arbitrary objects come back in the same place, buffers are attached in the order and number in which they were collected, and nothing encoded is skipped when decoding. A failure while encoding or decoding one object does not affect the next one.",
    ["inputs", "histories"],
    "every object graph, every number and size of buffers",
    "Tests send a few small objects; the branches for several buffers and for nested identifiers are rarely or never taken.",
    [B + "mpi/core/serialization.py", B + "mpi/core/communication.py", B + "mpi/core/controller/common.py"],
    [("ComplexDataSerializer, SimpleDataSerializer", "serialization.py")],
)
prop(
    "C20",
    "MPI processes have one role each, and tasks go only to free workers",
    "Every MPI process of a job has exactly one role, driver, monitor or worker, on which all processes agree, and each host that shares memory has a monitor. A process places tasks and actors only on workers that it has not reserved for an actor and never on itself, taking the eligible workers in turn; when there is none, submitting raises. The resources reported are those of the processes that execute tasks.",
    ["configurations", "histories"],
    "every number of processes and hosts, every history of submissions and reservations",
    "Tests run on one host with a fixed number of processes.",
    [B + "mpi/core/communication.py", B + "mpi/core/controller/common.py", B + "mpi/core/controller/api.py", B + "pymp/core/process_manager.py"],
    [("MPIState role predicates", "communication.py"), ("RoundRobin.schedule_rank", "controller/common.py")],
)
prop(
    "C21",
    "Identifiers of objects are unique and mean the same object everywhere",
    "Two different objects never get the same identifier, whichever processes create them, and an identifier that travels to another process and back is equal to the original, hashes alike and refers to the same object. Wrapping an identifier in a reference or taking it out again never changes which object it stands for.",
    ["histories", "schedules", "programs"],
    "every process, every history of creations and transfers",
    "A clash needs two processes to generate identifiers independently, or an identifier to be re-created after its original is gone.",
    [B + "common/data_id.py", B + "common/utils.py", B + "mpi/core/common.py", B + "mpi/core/local_object_store.py", B + "pyseq/core/object_store.py", B + "pymp/core/object_store.py", "unidist/core/base/object_ref.py", "unidist/core/base/common.py"],
    [("generation of ids", "DataID, MpiDataID, LocalObjectStore.generate_data_id"), ("__eq__/__hash__/__reduce__", "data_id.py, mpi/core/common.py")],
)
prop(
    "C22",
    "Copying into shared memory copies every byte exactly once",
    "Copying a buffer of any length, at any address and with any number of threads writes each byte of the source to the same offset of the destination, reads and writes nothing outside the two buffers, and has finished completely when it returns. Reading an object back from shared memory takes exactly the ranges that were written for its parts.",
    ["inputs", "schedules"],
    "every buffer length, alignment and number of threads",
    "The boundary cases depend on the length modulo block and thread count and on the address, which tests do not control.",
    [B + "mpi/core/memory/memory.cpp", B + "mpi/core/memory/_memory.pyx", B + "mpi/core/shared_object_store.py"],
    [("parallel_memcopy", "memory.cpp"), ("_write_to_shared_buffer / _read_from_shared_buffer", "shared_object_store.py")],
)
prop(
    "C23",
    "Each process has one instance of every store, scheduler and tracker",
    "Within a process, all code that stores or looks up objects, requests, tasks, outstanding sends, completed tasks or schedules works on one and the same instance, whose contents persist for the life of the process and start out empty. Independent instances never share state by accident.",
    ["histories", "programs"],
    "every order of first uses",
    "A second instance or shared class-level state loses data only for particular orders of first use.",
    [B + "mpi/core/" + f for f in ("local_object_store.py", "shared_object_store.py", "object_store.py", "async_operations.py", "worker/task_store.py", "worker/request_store.py", "monitor/loop.py", "controller/common.py", "communication.py")] + [B + "pyseq/core/object_store.py", B + "pymp/core/object_store.py", B + "pymp/core/process_manager.py"],
    [("get_instance", "all of them")],
)
prop(
    "N01",
    "Every retrieval eventually returns",
    "If every task terminates, every retrieval and every wait eventually returns, for every number of workers and every nesting of tasks that submit and wait for other tasks.",
    ["schedules", "programs"],
    "all programs and schedules",
    "Liveness over all schedules.",
    [B + "mpi/core/worker/loop.py"],
    [("event loops", "worker_loop, monitor_loop")],
)
prop(
    "N02",
    "A stored object equals the original after a round trip",
    "The value obtained from a reference equals the object that was stored, for every picklable object.",
    ["inputs"],
    "all objects",
    "All objects of all types.",
    [B + "mpi/core/serialization.py"],
    [("pickle", "third party")],
)
prop(
    "N03",
    "Memory use stays bounded by the live objects",
    "The memory a job uses is bounded by a constant factor of the objects that are still referenced plus the messages in flight.",
    ["histories"],
    "all histories",
    "Quantitative over unbounded histories.",
    [B + "mpi/core/local_object_store.py", B + "mpi/core/async_operations.py"],
    [("garbage collection", "controller/garbage_collector.py")],
)

for p in P:
    assert len(p["title"]) <= 80, p["title"]
    for f in p["anchors"]["files"]:
        assert os.path.exists("/repo/" + f), f
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as h:
    for p in P:
        h.write(json.dumps(p) + "\n")
