"""what every evidence file says about trust, and each property's level"""
TRUSTED = [
    'the verification condition generator /verif/vc (symbolic execution of the JVM bytecode compiled from /repo in the run; javac 17 and the ASM reader are trusted)',
    'z3 (thorough: discharged obligations re-checked by cvc5)',
    'contracts of the JDK classes used by the code: models in /verif/models (streams, Optional; executed like repository code) and axioms in /verif/vc/lib.py (atomics, collections, queues, StringBuilder, Thread fields, CountDownLatch, Executors)',
    'log4j calls are effect free',
]
ASSUME = [
    'int arithmetic is exact 32-bit in the encoding where it can wrap, else shown in range; allocation never fails; no StackOverflowError',
    'user callbacks are arbitrary code: any value, any exception, any effect that the public API of the library permits on the machine',
    'getName()/getPayload() of states and events are pure and do not throw; equals/hashCode of the events are consistent',
]
META = {
    'C01': {'note': 'Functions under contract: TransitionTask.execute with GenericStateMachine.notifyStateMachineListener/updateCurrentState executed as its callees. The machine is built by the real builder, then aged (every cell that methods can write is arbitrary), its table is an arbitrary function from state class and event class to targets. One obligation per path: the log of boundary calls is exactly begin, exit (source current), entry (target current), end, with the event, the machine, source and target; after a call that throws nothing follows. Callbacks may do anything the public API permits except stop the machine (that is C03). Assumed: callbacks do not stop the machine and do not reconfigure it (statement).'},
    'C02': {'note': 'Functions under contract: TransitionTask.execute. The same execution as C01 for table entries that are absent or the no-op state: exactly one handler call with that very event and machine, or exactly one begin and one end with current state/no-op state; the current state cell is unchanged. Assumed: as C01.'},
    'C03': {'note': 'Functions under contract: TransitionTask.execute, start, startInState, stop, updateCurrentState, fire, and every other public method of GenericStateMachine. Rely-guarantee: every write section of every public method, started in an arbitrary state of (started, ended, current) satisfying the invariant "ended iff current is the end state", preserves it and never leaves the ended region; callees that hold the machine\'s lock count as one step, other threads act between steps (rely = the transitive closure proved as guarantee). When it ends: postconditions of execute, start, startInState over an arbitrary table. Assumed: sections under one common lock are atomic for readers without the lock too (the flag and the state are separate volatiles: a reader may see the new state before the flag, which the statement does not exclude); initial configuration is done before the start.'},
    'C04': {'note': "Functions under contract: GenericStateMachine.fire (both public entry points). From an arbitrary started/ended state: exactly one boundary call, before-start/after-end of the strategy's own listener or processEvent, with the event and machine; no cell of the machine written; interference between the reads of the flags is allowed in the order the machine can move. Assumed: the strategy object obeys its interface."},
    'C05': {'note': 'Functions under contract: DefaultEventStrategy.processEvent, the task it hands to the executor, EventMachinePairPool.take/give, EventMachinePair. The queue is an abstract sequence (array, head, tail) of which other threads may append between any two steps (firing side) and the task is the only consumer. processEvent: exactly one append of a carrier that holds this event (or its copy) and machine, followed by exactly one submission to the executor, or a report. Task: an inductive FOR over all positions h0..head: in order, once each, processed iff the machine has not ended; it returns only when it saw the queue empty, so no accepted event is left behind when its own submission is run later. Assumed: first-in-first-out queue with atomic operations; the executor runs each submitted task once, one after another.'},
    'C06': {'note': 'Functions under contract: the same task, EventMachinePairPool. For every position: when processing throws an Exception the listener is called exactly once with that event, that machine, the processing thread and that exception; the carrier is given back after that and only then, and the loop goes on; other Throwables propagate after recycling. Three different threads construct, fire and process. Assumed: as C05.'},
    'C07': {'note': 'Functions under contract: DefaultEventStrategy.processEvent, getEventQueueSize. For an arbitrary bound and arbitrary contents: an event is queued only when the bound is not positive or fewer are waiting; a refusal is exactly one report with an IllegalStateException of the very event, on the firing thread, and the queue unchanged; a queue that declines is reported as well. Assumed: one firing thread at a time (check-then-act by design).'},
    'C08': {'note': 'Functions under contract: DropDuplicateEventStrategy.processEvent and its delegation, the stream model of the scan. For an arbitrary queue: dropped without any call iff an equal event waits (existential witness from the path / universal invariant of the scan), else exactly what C05/C07 say. An event being processed has left the queue (obligation on the task). The other methods are proved equal to those of the wrapped strategy, cell by cell. Assumed: one firing thread at a time; equality of events is an equivalence.'},
    'C09': {'note': 'Functions under contract: processEvent of both strategies, the task, GenericStateMachine.fire, TransitionTask.execute, NamedState.onEntry/onExit, NamedStateEvent copy constructor. Payload at the call is stored in the carrier in an object no one else holds; ownership: a carrier is written only between taking and queueing it, and the obligations "the carrier is its own" exclude reuse. From there each hop passes on the same object. Assumed: known finding: an event class of the user\'s own with a payload is copied as NamedStateEvent.'},
    'C10': {'note': 'Functions under contract: all configuration methods of GenericStateMachine. One unit per configuration state (no initial state; nothing, a state, or a state and an event marked) and method: exactly the documented table update, or IllegalStateException and nothing changed, for arbitrary tables, names and events; reserved names for all strings. Assumed: the table is keyed by equality of states and events.'},
    'C11': {'note': 'Functions under contract: start, startInState, markStarted. Success and refusal for arbitrary tables (loop invariant: rows seen so far have outcomes); at-most-once under arbitrary interference: the step that marks the machine started is guarded, proved as a guarantee of each start method against the rely that others may start in between. Assumed: as C03.'},
    'C12': {'note': 'Functions under contract: NamedState constructor, onEntry, onExit, appendEntryActions, appendExitActions. FOR over an arbitrary list of actions; append: ghost recursive function of the list after k arguments, invariant list = C(k), two lemmas proved by induction (old actions kept, order kept). Assumed: actions do not append to the state whose actions are running.'},
    'C13': {'note': 'Functions under contract: NamedState and NamedStateEvent: equals, hashCode, getName, getPayload, setPayload, copy constructor. Relational obligations over three arbitrary objects: equality is that of names within a class, an equivalence, hash consistent; payload is not part of it; a copy equals and carries the payload; setPayload is immediately visible (a volatile/atomic cell). Assumed: String.equals is an equivalence with consistent hashes.'},
    'C14': {'note': 'Functions under contract: factory, Config, Builder, GenericStateMachine, strategies, pool, task. Frame and separation: two machines built side by side in every documented way; each public operation on one changes no cell reachable from the observers of the other, and cells reachable from both are immutable or explicitly supplied. Carriers used earlier by another machine (aged pool) never leak machine or event. Assumed: explicitly supplied queues are excluded by the statement.'},
    'C15': {'note': 'Functions under contract: HandleExceptionAction.execute. All outcomes of the wrapped action: returns, throws any Exception, throws any Error. Assumed: Exception and Error stand for all throwables.'},
    'C16': {'note': "Functions under contract: MultiConsumerStateMachineListener. Registry as a map over arbitrary listeners: add/remove results against the linearised map operation, one map operation each; notifications: FOR over the enumeration of the registry, each once with the same arguments; constructor: ghost registry after k listeners. Assumed: the JDK map is linearizable; listeners' equality consistent."},
    'C17': {'note': 'Functions under contract: LifecycleStateMachineUtil. The 5x4 table entry by entry over arbitrary five states, no other mapping, initial state; factories give new states with their names and exactly the given actions; the four events are constants, pairwise different. Assumed: appendEntryActions by its contract (C12).'},
    'C18': {'note': 'Functions under contract: AbstractAppService constructor and the actions it appends, AbstractAppContext. The app is built by its real constructor with an arbitrary list of subsystems; every entry/exit action of every lifecycle state is executed: FOR in order (starting) / in reverse (stopping), then exactly one complete, or on an Exception exactly one error and no further subsystem; no other action or method starts or stops any. Assumed: the list of subsystems does not change; transitions are C17.'},
    'C19': {'note': 'Functions under contract: AbstractAppService.start, stop, error, getLifecycleState, and the latch. Gates for all five states and the unstarted app; start waits on a latch that belongs to this app alone, opened by exactly the exits/entries of the stopped state that the statement names; every other method and hook leaves the latch alone. Assumed: machine used by contract (C03, C11); the waiting thread is not interrupted.'},
    'C20': {'note': 'Functions under contract: Threads.newNamedDaemonThreadFactory and its factory. Name = given name (any string, null) + "-" + a number from one atomic step on one static counter that nothing else writes; daemon; handler; target. Assumed: the counter does not wrap within one JVM.'},
    'C21': {'note': 'Functions under contract: factory, Config, Builder, DefaultEventStrategy, DropDuplicateEventStrategy, TransitionTask. For every combination of zero, one, all but one and all settings (thorough: pairs as well), with and without overwriting: observed through firing and through running the task: queue, bound, executor, listener, handler, thread name; defaults are of the kind documented. Machines: context, listener (replaced at any time, also from a callback), strategy. Assumed: the thread name is set before the executor is made.'},
    'C22': {'note': 'Functions under contract: LoggingStateMachineListener. The call made to the logger, for arbitrary listener name, states and event (names may hold braces): one message at info level that renders, under the documented {} substitution, as required. Assumed: log4j renders {} in order.'},
}
