import json
B="src/main/java/com/webotech/statemachine/"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=[B+f for f in files],state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
GSM="GenericStateMachine.java";TT="strategy/TransitionTask.java";DES="strategy/DefaultEventStrategy.java"
p("C01","A mapped event runs every step of its transition once and in order",
"When a running machine processes an event that its current state maps to a target state, exactly these things happen, once each and in this order: the listener (if any) is told the change begins, the source state's exit hook runs while the source is still current, the target becomes the current state, the target's entry hook runs while the target is current, and the listener is told the change ended. Every one of these callbacks receives the event that is being processed, the same source and target states, and this machine. This holds for every configured table, state, event and listener as long as nothing stops the machine and no callback throws in the middle; if a callback throws, none of the later steps runs and the steps already done are not undone.",
["inputs","histories","programs"],"every transition table, every current state, every event, every listener (including none), every behaviour of the user's callbacks",
"Tests run a few two-state tables with fixed callbacks; the claim is about every table, every state/event pair and callbacks that fire, stop or throw at any step.",
[TT,GSM],[("transition algorithm","TransitionTask.execute"),("state update","GenericStateMachine.updateCurrentState"),("listener dispatch","GenericStateMachine.notifyStateMachineListener")],
[("current state","the state the machine is in","GenericStateMachine.currentState"),("table","(state,event) -> target","GenericStateMachine.states / TransitionTask.states")],
["listener callbacks","State.onEntry/onExit","getCurrentState()"])
p("C02","Unmapped and non-transitioning events never change the state or run actions",
"When a running machine processes an event that its current state does not map, the unmapped-event handler is called exactly once with that event and that machine, and nothing else happens: no listener call, no entry or exit hook, no change of current state. When the event is configured as not transitioning, the listener (if any) gets exactly one begin and one end notification from the current state to the reserved no-op state for that event, no entry or exit hook and no unmapped handler runs, and the current state stays what it was.",
["inputs","histories","programs"],"every table, current state and event; every handler and listener",
"Tests check one unmapped and one no-op event against mocks; they cannot show that no other table/event combination leaks a state change or an action.",
[TT,GSM],[("unmapped / no-op branches","TransitionTask.execute"),("no-op mapping","GenericStateMachine.itDoesNotTransition")],
[("no-op target","reserved state that marks 'does not transition'","GenericStateMachine.noopState")],["unmapped handler","listener callbacks","getCurrentState()"])
p("C03","A machine ends exactly when it should, and stays ended",
"A started machine becomes ended exactly when stop is called, or when it processes an event mapped to ending, or when (at start or through an event) it enters a state that is configured to end there or that was only ever used as a target and never configured itself; the entered state's entry hook has run by then (resuming in a state without entering it does not count as entering). From the moment a started machine has ended, it reports itself ended and its current state is the reserved end state for good: no later call or action, and no interleaving of stop with start or with a transition in progress, makes it un-ended or moves it to another state. A started machine that has not ended is never in the reserved end state.",
["inputs","histories","schedules"],"every table and history of calls, including stop called from inside entry/exit actions or from another thread at any point of start or of a transition",
"Tests stop an idle machine or end by an event; none stops a machine from inside an action or at every point of a concurrent transition.",
[GSM,TT],[("ended flag and end state move together","GenericStateMachine.updateCurrentState"),("implicit end after a transition","TransitionTask.execute"),("start","GenericStateMachine.start"),("stop","GenericStateMachine.stop")],
[("ended flag","machine has ended","GenericStateMachine.isEnded"),("current state","","GenericStateMachine.currentState")],["isEnded()","getCurrentState()"])
p("C04","Every fired event takes exactly one of three routes",
"Firing an event on a machine that has not been started calls the before-start callback exactly once and nothing else; firing on a started machine that has ended calls the after-end callback exactly once and nothing else; in every other case the event is handed exactly once to the machine's event processing strategy together with that machine. The callbacks are those of the unexpected-flow listener of the machine's own strategy and receive the fired event and this machine; firing never itself changes the state of the machine.",
["inputs","histories"],"every machine state and every event, for any strategy implementation",
"Tests exercise the routes on a couple of machines without checking that the other routes stay silent for every combination of the started and ended flags.",
[GSM],[("routing","GenericStateMachine.fire"),("flow listener taken from the strategy","GenericStateMachine constructor")],
[("started flag","","GenericStateMachine.isStarted"),("ended flag","","GenericStateMachine.isEnded")],["UnexpectedFlowListener callbacks","EventProcessingStrategy.processEvent"])
p("C05","Accepted events are processed exactly once, in the order they were accepted",
"With the default strategy on a single-threaded executor, each event accepted into the queue is taken out exactly once, in acceptance order, and put through the transition logic exactly once with the machine it was fired on, unless that machine has ended by the time its turn comes, in which case it is discarded without any effect. The processing of one event (including all its actions) finishes before the next one is taken, whatever the actions do (including firing more events) and whatever other threads fire meanwhile. Every acceptance schedules processing after the event is in the queue, so when the executor is idle the queue is empty and no accepted event is left behind.",
["inputs","schedules","histories"],"every number of events and firing threads, every interleaving of producers with the single consumer, every action behaviour (including nested fires and thrown exceptions or errors)",
"Tests enqueue one or two events with mocks and wait; ordering and exactly-once under arbitrary interleavings and nested fires cannot be sampled.",
[DES,"strategy/EventMachinePair.java","strategy/EventMachinePairPool.java"],[("offer then schedule","DefaultEventStrategy.processEvent"),("drain loop","task submitted by DefaultEventStrategy.processEvent"),("pair recycling","EventMachinePairPool.take/give")],
[("event queue","accepted, not yet taken events","DefaultEventStrategy.eventQueue"),("pair pool","carriers not in use","EventMachinePairPool.pool")],["getEventQueueSize()","TransitionTask.execute calls"])
p("C06","A failing event is reported once and disturbs no other event",
"If processing an event throws an exception (from an action, a listener or a handler), the unexpected-flow listener is told exactly once, with that event, that machine, the processing thread and that very exception, and the event is not processed again; if processing does not throw, the listener is not told. The remaining queued events are still processed, in order, and the carrier object of the failed event is recycled exactly once and only after the event is finished with, also when an error that is not an exception escapes.",
["inputs","fault_sequences","histories"],"every queue content, every subset of events whose processing throws, every exception object",
"One test lets a single event throw; it does not mix failing and succeeding events, nor check that the recycled carrier is never shared by two events.",
[DES,"strategy/EventMachinePairPool.java"],[("catch/report/finally","task submitted by DefaultEventStrategy.processEvent"),("recycling","EventMachinePairPool.take/give")],
[("pair pool","","EventMachinePairPool.pool")],["UnexpectedFlowListener.onExceptionDuringEventProcessing"])
p("C07","The queue bound is respected and overflow is reported, never silent",
"With a positive maximum queue size, an event fired (by one thread at a time) when that many events are already waiting is not queued and not scheduled, and the firing thread reports it exactly once through the unexpected-flow listener with that event, machine, thread and an IllegalStateException; so the number of waiting events never exceeds the maximum. With a zero or negative maximum no event is refused for lack of room, whatever the number waiting. An event that the queue itself declines to take is reported in the same way instead of being lost, and every event that is not reported is queued.",
["inputs","histories","configurations"],"every maximum (all int values), every number of waiting events, every queue implementation that may decline",
"One test uses maximum 1; boundary values, zero, negative and large maxima, and queues that decline are not covered.",
[DES],[("bound check before queueing","DefaultEventStrategy.processEvent")],[("max queue size","","DefaultEventStrategy.maxQueueSize")],["getEventQueueSize()","UnexpectedFlowListener.onExceptionDuringEventProcessing"])
p("C08","The drop-duplicate strategy drops exactly the events already waiting",
"With the drop-duplicate strategy, an event fired while an equal event is waiting anywhere in the queue is dropped: the queue, the machine and all listeners are unaffected. An event that equals no waiting event is always handed on exactly once, with its machine, to normal in-order processing, even if an equal event was processed earlier or is being processed right now. Queue size, transition table and unexpected-flow listener are those of the wrapped strategy.",
["inputs","histories"],"every queue content (any length, any position of the duplicate), every event",
"The only test has one queued event, equal to the fired one; no test fires a non-duplicate or puts the duplicate behind other events.",
["strategy/DropDuplicateEventStrategy.java"],[("duplicate scan and delegation","DropDuplicateEventStrategy.processEvent")],[("wrapped queue","","DefaultEventStrategy.eventQueue")],["getEventQueueSize()"])
p("C09","Each fired event is processed with the payload it carried when fired",
"If an event carries a payload at the moment it is fired, every action and listener that runs for that firing sees an event equal to the fired one with exactly that payload, even if the caller sets other payloads on the same event object, or fires it again, before or while it is processed. An event fired without payload is delivered as the very object that was fired. Firing never modifies the caller's event.",
["inputs","histories","schedules"],"every payload, every later mutation of the event object, every interleaving of firing and processing",
"Reuse of one event object with changing payloads is only sampled end to end by a test outside the stable set.",
[DES,"NamedStateEvent.java"],[("defensive copy","DefaultEventStrategy.processEvent"),("copy constructor","NamedStateEvent(StateEvent)")],[("payload","","NamedStateEvent.payload")],["StateEvent.getPayload() inside actions"])
p("C10","Configuration is conflict-free: one target per state and event, misuse rejected",
"After any sequence of configuration calls, the machine's table contains exactly the mappings that were accepted, one target per state/event pair; a second mapping for a pair that already has one, a mapping given without marking a state or an event, a second initial state, any configuration before the initial state, marking a state while another is still being configured, and ending immediately in a state that has mappings are each rejected with IllegalStateException. States with one of the three reserved state names and events with the reserved event name are rejected wherever they are configured. A rejected call leaves every existing mapping as it was.",
["inputs","programs","histories"],"every sequence of configuration calls with every state and event",
"The tests try a dozen fixed misuses; in particular none maps the same state/event pair twice or checks the table after a rejection.",
[GSM],[("fluent configuration and its assertions","GenericStateMachine.initialSate/when/receives/itTransitionsTo/itDoesNotTransition/itEnds")],[("table","","GenericStateMachine.states"),("marked state/event","configuration cursor","GenericStateMachine.markedState/markedEvent")],["IllegalStateException","behaviour after start"])
p("C11","A machine starts at most once, only when complete, entering its initial state",
"Of all calls to start or start-in-state on a machine, however many threads make them, at most one succeeds and every other one throws IllegalStateException without running actions, notifying the listener or changing the state. Start refuses (and leaves the machine unstarted) when no initial state is defined or any received event has no outcome; when it succeeds the initial state is current and, in order, the listener is told of the begin, the entry hook runs with the reserved immediate event and this machine, and the listener is told of the end. Start-in-state accepts only states the user configured, makes that state current and runs no hook and no listener.",
["inputs","schedules","histories","configurations"],"every configuration (any number of states and dangling events), every interleaving of competing start calls",
"Tests call start twice in a row on one machine; racing starts and arbitrary dangling configurations are not tested.",
[GSM],[("completeness scan and once-only flag","GenericStateMachine.start"),("resume","GenericStateMachine.startInState")],[("started flag","","GenericStateMachine.isStarted")],["isStarted()","getCurrentState()","listener callbacks"])
p("C12","A state runs exactly its actions, in the order they were appended",
"Entering a named state executes each non-null entry action appended to it exactly once per append, in the order of appending, with the given event and machine, and no exit action; leaving it does the same for exit actions. Null actions are ignored and appending never disturbs actions appended earlier or those of the other kind. If an action throws, the actions after it do not run and the exception propagates.",
["inputs","programs"],"every list of actions (any length, repeated, with nulls), appended over any number of calls",
"Tests use two or three fixed actions in one append call.",
["NamedState.java"],[("entry/exit execution","NamedState.onEntry/onExit"),("append","NamedState.appendEntryActions/appendExitActions")],[("action lists","","NamedState.entryActions/exitActions")],["StateAction.execute"])
p("C13","State and event identity is by name only",
"For named states, and likewise for named events, equality holds exactly between objects of that same kind with equal names (a null name equals only a null name), whatever their actions or payloads; equal objects always have equal hash codes, and comparing with null or any other kind of object is false and never throws. The name never changes; setting a payload changes only that event's payload, and copying an event preserves both name and payload.",
["inputs"],"every pair or triple of names (including null), payloads, action lists and foreign objects",
"Tests compare three fixed names; symmetry, transitivity, hash consistency, null names and foreign classes are not covered.",
["NamedState.java","NamedStateEvent.java"],[("equality","NamedState.equals/hashCode"),("equality, copy","NamedStateEvent.equals/hashCode/constructors")],[("name","identity","NamedState.name / NamedStateEvent.name")],["equals","hashCode","getName","getPayload"])
p("C14","Separately built machines do not influence each other",
"Machines that were built separately, with the default strategy or with separately created strategies, share no event queue, transition table, flags or current state, even when their builder or the strategy configuration object is reused and no queue was supplied explicitly. Events fired on one machine are counted, deduplicated and processed only for that machine with that machine's own table, whatever the other machines do.",
["configurations","histories","programs"],"every number of machines, built through the defaults, a reused builder or a reused configuration, with any event traffic",
"Tests only check that two default strategies are different objects; no test runs two default-built machines side by side.",
["strategy/EventProcessingStrategyFactory.java",GSM],[("default strategy creation","EventProcessingStrategyFactory.createDefaultStrategy/createDropDuplicateStrategy, Config"),("builder","GenericStateMachine.Builder.build")],[("event queue","","DefaultEventStrategy.eventQueue"),("table","","TransitionTask.states")],["getEventQueueSize()","getCurrentState()"])
p("C15","Wrapping an action routes its exceptions to the handler and nothing else",
"Executing an exception-handling action executes the wrapped action exactly once with the same event and machine. If and only if that throws an Exception, the handler is called exactly once with the same event, machine and that same exception, and the exception does not escape; errors that are not Exceptions propagate and do not reach the handler, and whatever the handler throws propagates.",
["inputs","fault_sequences"],"every wrapped action behaviour (returns, throws any Exception or Error), every handler behaviour",
"Tests cover one normal and one throwing action; errors, checked exceptions thrown sneakily and throwing handlers are not covered.",
["HandleExceptionAction.java"],[("try/catch","HandleExceptionAction.execute")],[],["ExceptionHandler.onException"])
p("C16","The fan-out listener informs every registered listener exactly once",
"Each begin (end) notification to the fan-out listener reaches every currently registered listener exactly once as a begin (end) notification with the same states and event, and no other listener, for any number of listeners. Adding returns true exactly when it registers a listener that was not registered, removing returns true exactly when it removes one that was, also when several threads add or remove the same listener at once; null listeners given at construction are ignored and all others registered.",
["inputs","schedules","histories"],"every set of listeners, every sequence and interleaving of add, remove and notifications",
"Tests use one or two listeners sequentially; racing adds and removes are not tested.",
["MultiConsumerStateMachineListener.java"],[("atomic registration","MultiConsumerStateMachineListener.add/remove"),("fan-out","MultiConsumerStateMachineListener.onStateChangeBegin/onStateChangeEnd")],[("registered listeners","","MultiConsumerStateMachineListener.consumers")],["StateMachineListener callbacks","return values"])
p("C17","The application lifecycle has exactly the documented transitions",
"Configuring the application lifecycle on a machine with five distinct states gives exactly the documented table: UNINITIALISED-start->STARTING; STARTING-complete->STARTED, -error->STOPPED; STARTED-stop->STOPPING, -error->STOPPED; STOPPING-complete->STOPPED, -error->STOPPED; STOPPED-start->STARTING, STOPPED-stop->end; with UNINITIALISED initial and no other mapping. The four lifecycle events are pairwise different, and each factory for a lifecycle state gives a new state with its documented name and exactly the given entry actions.",
["programs","inputs","configurations"],"every machine and every five distinct states; every list of entry actions",
"Tests check the state names and follow the main path; the error and restart rows and the absence of further rows are not tested.",
["service/LifecycleStateMachineUtil.java"],[("table","LifecycleStateMachineUtil.configureAppStateMachine"),("events and states","LifecycleStateMachineUtil static members")],[],["StateMachine configuration calls","State.getName()"])
p("C18","An app starts subsystems in order, stops them in reverse, fails over to error",
"On entering its starting state the app starts each configured subsystem exactly once, in list order, with its own context, and fires complete exactly once only after all of them have started; on entering its stopping state it stops each configured subsystem exactly once in the reverse order and fires complete exactly once only after all of them have stopped. If a subsystem throws an Exception, no further subsystem is started (stopped), complete is not fired, and error is fired exactly once. This holds for any number of subsystems, and no other lifecycle state starts or stops a subsystem.",
["inputs","fault_sequences","configurations"],"every list of subsystems (any length, with repetitions), every position of a failing subsystem, both app modes",
"Tests use two mocked subsystems that never fail.",
["service/AbstractAppService.java","service/AbstractAppContext.java","HandleExceptionAction.java"],[("lifecycle actions","AbstractAppService.configureAppStateMachine")],[("subsystem list","","AbstractAppContext.subsystemsRef")],["Subsystem.start/stop","events fired on the app's machine"])
p("C19","App start/stop/error are gated by state, and start returns when the app is over",
"The first start of an app starts its machine, fires start and blocks; it returns (without an exception) once the app is over: for an exit-on-stop app when it reaches its stopped state, which also fires stop to end it, for a restartable app when it ends after a further stop in the stopped state. Any other start is accepted only for a restartable app in its stopped state, where it fires start; stop is accepted in the started state and, for a restartable app, in the stopped state, where it fires stop, and is a no-op in the stopped state of an exit-on-stop app; every other start or stop throws IllegalStateException and fires nothing. Reporting an error always fires error exactly once and changes nothing else.",
["histories","inputs","schedules"],"both modes, every lifecycle state at the time of the call, every interleaving of the blocked first start with the app's own state machine thread",
"Tests follow the main path in both modes; they never check that the blocked start call returns, nor all state/mode combinations.",
["service/AbstractAppService.java"],[("gating and latch","AbstractAppService.start/stop/error"),("stopped state action","AbstractAppService.configureAppStateMachine")],[("latch","blocks the first start","AbstractAppService.appLatch"),("mode","exit on stop","AbstractAppService.isExitOnStop")],["return of start()","IllegalStateException","events fired on the app's machine"])
p("C20","Library threads are daemons with a unique configured name and the given handler",
"Every thread made by the library's thread factory runs the given task, is a daemon, carries the configured name followed by a dash and a number that no other thread made by the library has, for any number of threads and factories and any threads creating them, and has exactly the given uncaught-exception handler (or none).",
["inputs","schedules"],"every name (including format characters), task and handler; any number of factories and concurrent creations",
"Tests look at one thread of one factory.",
["util/Threads.java"],[("thread creation and numbering","Threads.NamedDaemonThreadFactory.newThread")],[("thread counter","","Threads.NamedDaemonThreadFactory.threadNumber")],["Thread name, daemon flag, handler"])
p("C21","Strategies and machines use exactly what they were configured with",
"A strategy built from a configuration uses exactly the unmapped-event handler, executor, unexpected-flow listener, maximum queue size and queue that were set on it, and for each one that was not set a working default: a handler and a listener that only log, a single-threaded daemon executor named after the configured thread name (or the library default), no bound, and an unbounded queue. A machine built by the builder has exactly the configured context, listener and strategy (or no listener and a default strategy), gives that strategy its own table, and starts out neither started nor ended; replacing the listener takes effect for all later notifications.",
["configurations","inputs"],"every combination of settings present or absent, with every value",
"Tests read single settings back from the configuration object; whether the built strategy and machine use them together is not tested.",
["strategy/EventProcessingStrategyFactory.java",DES,GSM,"strategy/DefaultUnexpectedFlowListener.java"],[("configuration and defaults","EventProcessingStrategyFactory.Config"),("builder and constructor","GenericStateMachine.Builder.build")],[],["behaviour of the built strategy and machine"])
p("C22","The logging listener reports the states, the event and the name it was given",
"The logging listener logs exactly one message at info level per notification and has no other effect: for a begin notification the source state, event and target state names in that order, for an end notification the target state name, in both cases with the listener's own name when it has a non-empty one and without it otherwise. It never throws because its own name is missing or empty.",
["inputs"],"every listener name (null, empty, any text) and every state and event name",
"Tests compare the text for one named and one unnamed listener.",
["LoggingStateMachineListener.java"],[("message selection","LoggingStateMachineListener.logChange")],[],["log output"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,sch); n=x['statement'].count('. ')+1
    if n>3: print(x['id'],n)
print(len(P))
