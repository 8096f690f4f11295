From 478551650a104952dc8684996cdad36ef4539b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:17 +0000
Subject: [PATCH 01/11] fix: receiving an already mapped event no longer erases
 its mapping

---
 .../java/com/webotech/statemachine/GenericStateMachine.java     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/java/com/webotech/statemachine/GenericStateMachine.java b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
index 51b54bb..8504be9 100644
--- a/src/main/java/com/webotech/statemachine/GenericStateMachine.java
+++ b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
@@ -91,7 +91,7 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
     assertInitStateDefined(true);
     assertMarkedStateDefined(true);
     this.markedEvent = stateEvent;
-    this.states.get(this.markedState).put(this.markedEvent, null);
+    this.states.get(this.markedState).putIfAbsent(this.markedEvent, null);
     return this;
   }
 
-- 
2.43.0


From fc2092f8034e9d875362bef36954be9d8b2eb246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:17 +0000
Subject: [PATCH 02/11] fix: reject a transition that is configured without an
 event

---
 .../com/webotech/statemachine/GenericStateMachine.java   | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/main/java/com/webotech/statemachine/GenericStateMachine.java b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
index 8504be9..62ab8fb 100644
--- a/src/main/java/com/webotech/statemachine/GenericStateMachine.java
+++ b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
@@ -116,6 +116,7 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
     assertNotReservedState(state);
     assertInitStateDefined(true);
     assertMarkedStateDefined(true);
+    assertMarkedEventDefined();
     assertEventNotMapped();
     this.states.get(this.markedState).put(this.markedEvent, state);
     this.markedState = null;
@@ -127,6 +128,7 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
   public StateMachine<T, S> itDoesNotTransition() {
     assertInitStateDefined(true);
     assertMarkedStateDefined(true);
+    assertMarkedEventDefined();
     assertEventNotMapped();
     this.states.get(this.markedState).put(this.markedEvent, this.noopState);
     this.markedState = null;
@@ -175,6 +177,13 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
     }
   }
 
+  private void assertMarkedEventDefined() {
+    if (this.markedEvent == null) {
+      throw new IllegalStateException(
+          "A StateEvent for State [" + this.markedState.getName() + "] has to be defined first.");
+    }
+  }
+
   private void assertInitStateDefined(boolean exists) {
     if (exists && this.initState == null) {
       throw new IllegalStateException("An initial State has to be defined first.");
-- 
2.43.0


From 25c4804cbc8d183d2962ca9977d8ee92da5f4743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:17 +0000
Subject: [PATCH 03/11] fix: startInState() rejects the reserved states

---
 src/main/java/com/webotech/statemachine/GenericStateMachine.java | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main/java/com/webotech/statemachine/GenericStateMachine.java b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
index 62ab8fb..f084acb 100644
--- a/src/main/java/com/webotech/statemachine/GenericStateMachine.java
+++ b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
@@ -267,6 +267,7 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
     if (!states.containsKey(state)) {
       throw new IllegalStateException("State [" + state + "] has not been configured");
     }
+    assertNotReservedState(state);
     if (isStarted.compareAndSet(false, true)) {
       this.currentState = state;
       isEnded.set(false);
-- 
2.43.0


From f1cc2ca828635c6ac649e859b23255167f4f676c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:17 +0000
Subject: [PATCH 04/11] fix: a state machine that was stopped stays ended, also
 when stopped during start() or a transition

---
 .../statemachine/GenericStateMachine.java     | 31 +++++++++++++------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/main/java/com/webotech/statemachine/GenericStateMachine.java b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
index f084acb..54bc99a 100644
--- a/src/main/java/com/webotech/statemachine/GenericStateMachine.java
+++ b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
@@ -41,7 +41,7 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
   private State<T, S> initState;
   private State<T, S> markedState;
   private StateEvent<S> markedEvent;
-  private State<T, S> currentState;
+  private volatile State<T, S> currentState;
 
   private GenericStateMachine(T context, Map<State<T, S>, Map<StateEvent<S>, State<T, S>>> states,
       StateMachineListener<T, S> stateMachineListener,
@@ -238,12 +238,10 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
         }
       }
     }
-    if (isStarted.compareAndSet(false, true)) {
-      currentState = initState;
+    if (markStarted(initState)) {
       notifyStateMachineListener(false, noState, immediateEvent, initState);
       initState.onEntry(immediateEvent, this);
       notifyStateMachineListener(true, noState, immediateEvent, initState);
-      isEnded.set(false);
     } else {
       throw new IllegalStateException("The state machine has already been started");
     }
@@ -268,14 +266,23 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
       throw new IllegalStateException("State [" + state + "] has not been configured");
     }
     assertNotReservedState(state);
-    if (isStarted.compareAndSet(false, true)) {
-      this.currentState = state;
-      isEnded.set(false);
-    } else {
+    if (!markStarted(state)) {
       throw new IllegalStateException("The state machine has already been started");
     }
   }
 
+  private boolean markStarted(State<T, S> state) {
+    synchronized (isEnded) {
+      if (isStarted.get()) {
+        return false;
+      }
+      isEnded.set(false);
+      currentState = state;
+      isStarted.set(true);
+      return true;
+    }
+  }
+
   @Override
   public boolean isStarted() {
     return isStarted.get();
@@ -326,8 +333,12 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
   }
 
   public void updateCurrentState(State<T, S> state) {
-    if (isEnded.compareAndSet(false, state.equals(endState))) {
-      currentState = state;
+    boolean isEndState = state.equals(endState);
+    synchronized (isEnded) {
+      if (!isEnded.get()) {
+        currentState = state;
+        isEnded.set(isEndState);
+      }
     }
   }
 
-- 
2.43.0


From c815d220b3a5854669d4f1304b7433e03f65072b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:17 +0000
Subject: [PATCH 05/11] fix: starting in an initial state that immediately ends
 ends the state machine

---
 .../java/com/webotech/statemachine/GenericStateMachine.java    | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main/java/com/webotech/statemachine/GenericStateMachine.java b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
index 54bc99a..cf1adbd 100644
--- a/src/main/java/com/webotech/statemachine/GenericStateMachine.java
+++ b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
@@ -242,6 +242,9 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
       notifyStateMachineListener(false, noState, immediateEvent, initState);
       initState.onEntry(immediateEvent, this);
       notifyStateMachineListener(true, noState, immediateEvent, initState);
+      if (endState.equals(states.get(initState).get(immediateEvent))) {
+        stop();
+      }
     } else {
       throw new IllegalStateException("The state machine has already been started");
     }
-- 
2.43.0


From 17f92eefe97e9e90822f5bb70d88ec28089a231e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:17 +0000
Subject: [PATCH 06/11] fix: machines built by the same builder do not share
 the default strategy

---
 .../com/webotech/statemachine/GenericStateMachine.java    | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/main/java/com/webotech/statemachine/GenericStateMachine.java b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
index cf1adbd..4f02193 100644
--- a/src/main/java/com/webotech/statemachine/GenericStateMachine.java
+++ b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
@@ -388,11 +388,11 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
     }
 
     public GenericStateMachine<T, S> build() {
-      if (eventProcessingStrategy == null) {
-        eventProcessingStrategy = EventProcessingStrategyFactory.createDefaultStrategy();
+      EventProcessingStrategy<T, S> strategy = eventProcessingStrategy;
+      if (strategy == null) {
+        strategy = EventProcessingStrategyFactory.createDefaultStrategy();
       }
-      return new GenericStateMachine<>(context, new HashMap<>(), stateMachineListener,
-          eventProcessingStrategy);
+      return new GenericStateMachine<>(context, new HashMap<>(), stateMachineListener, strategy);
     }
   }
 }
-- 
2.43.0


From f8ccb561eaab3ea895270176deee2a7c686cbfbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:17 +0000
Subject: [PATCH 07/11] fix: strategies created with the same config do not
 share the default event queue

---
 .../strategy/EventProcessingStrategyFactory.java           | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/main/java/com/webotech/statemachine/strategy/EventProcessingStrategyFactory.java b/src/main/java/com/webotech/statemachine/strategy/EventProcessingStrategyFactory.java
index 458d3b7..c34d5a0 100644
--- a/src/main/java/com/webotech/statemachine/strategy/EventProcessingStrategyFactory.java
+++ b/src/main/java/com/webotech/statemachine/strategy/EventProcessingStrategyFactory.java
@@ -137,10 +137,9 @@ public class EventProcessingStrategyFactory {
     }
 
     Queue<EventMachinePair<T, S>> getEventQueue() {
-      if (eventQueue == null) {
-        eventQueue = new ConcurrentLinkedQueue<>();
-      }
-      return eventQueue;
+      /* The default queue is not kept so that strategies
+        created with the same Config do not share it */
+      return eventQueue == null ? new ConcurrentLinkedQueue<>() : eventQueue;
     }
   }
 }
-- 
2.43.0


From f1328f40ae929af2e0afeb2f3bf40e33dbfdc423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:38 +0000
Subject: [PATCH 08/11] fix: report an event that the event queue does not
 accept

---
 .../statemachine/strategy/DefaultEventStrategy.java       | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java b/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
index 3e870db..e06957b 100644
--- a/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
+++ b/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
@@ -83,7 +83,13 @@ public class DefaultEventStrategy<T, S> implements EventProcessingStrategy<T, S>
     } else {
       inboundPair.setEventMachinePair(stateEvent, stateMachine);
     }
-    eventQueue.offer(inboundPair);
+    if (!eventQueue.offer(inboundPair)) {
+      eventMachinePairPool.give(inboundPair);
+      unexpectedFlowListener.onExceptionDuringEventProcessing(stateEvent, stateMachine,
+          Thread.currentThread(),
+          new IllegalStateException("The event queue did not accept the event - dropping event"));
+      return;
+    }
     executor.execute(() -> {
       while (!eventQueue.isEmpty()) {
         EventMachinePair<T, S> consumedPair = eventQueue.poll();
-- 
2.43.0


From 1756a5fd5a6c812836977763449a64b15d622b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:38 +0000
Subject: [PATCH 09/11] fix: a queued event is discarded only if its own state
 machine has ended

---
 .../webotech/statemachine/strategy/DefaultEventStrategy.java    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java b/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
index e06957b..40c2878 100644
--- a/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
+++ b/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
@@ -96,7 +96,7 @@ public class DefaultEventStrategy<T, S> implements EventProcessingStrategy<T, S>
         StateEvent<S> event = consumedPair.getStateEvent();
         GenericStateMachine<T, S> machine = consumedPair.getStateMachine();
         try {
-          if (!stateMachine.isEnded()) {
+          if (!machine.isEnded()) {
             transitionTask.execute(event, machine);
           }
         } catch (Exception e) {
-- 
2.43.0


From 2d6963cb938c222d3e45f7b886004983d0832bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:38 +0000
Subject: [PATCH 10/11] fix: an event in a state without configuration is
 handled as unmapped

---
 .../com/webotech/statemachine/strategy/TransitionTask.java     | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/java/com/webotech/statemachine/strategy/TransitionTask.java b/src/main/java/com/webotech/statemachine/strategy/TransitionTask.java
index 1d65b60..6551746 100644
--- a/src/main/java/com/webotech/statemachine/strategy/TransitionTask.java
+++ b/src/main/java/com/webotech/statemachine/strategy/TransitionTask.java
@@ -24,7 +24,8 @@ public class TransitionTask<T, S> {
   }
 
   void execute(StateEvent<S> event, GenericStateMachine<T, S> machine) {
-    State<T, S> toState = states.get(machine.getCurrentState()).get(event);
+    Map<StateEvent<S>, State<T, S>> transitions = states.get(machine.getCurrentState());
+    State<T, S> toState = transitions == null ? null : transitions.get(event);
     if (toState == null) {
       unmappedEventHandler.accept(event, machine);
       return;
-- 
2.43.0


From 3eb7f8df524ee2ee1827399c88b416ca6d8b624e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:38 +0000
Subject: [PATCH 11/11] fix: starting an app returns when the app is over,
 without an exception

---
 .../webotech/statemachine/service/AbstractAppService.java   | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main/java/com/webotech/statemachine/service/AbstractAppService.java b/src/main/java/com/webotech/statemachine/service/AbstractAppService.java
index ec4893f..2beb141 100644
--- a/src/main/java/com/webotech/statemachine/service/AbstractAppService.java
+++ b/src/main/java/com/webotech/statemachine/service/AbstractAppService.java
@@ -102,6 +102,11 @@ public abstract class AbstractAppService<C extends AppContext<C>> implements App
       }
     });
 
+    stopped.appendExitActions((evt, stateMachine) -> {
+      if (LifecycleStateMachineUtil.evtStop.equals(evt)) {
+        appLatch.countDown();
+      }
+    });
     LifecycleStateMachineUtil.configureAppStateMachine(appStateMachine, uninitialised, starting,
         started, stopping, stopped);
   }
@@ -128,7 +133,6 @@ public abstract class AbstractAppService<C extends AppContext<C>> implements App
       } catch (InterruptedException e) {
         logger.error("Main latch was interrupted", e);
         Thread.currentThread().interrupt();
-      } finally {
         if (!appStateMachine.isEnded()) {
           stop();
         }
-- 
2.43.0

