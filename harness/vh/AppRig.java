package vh;

import com.webotech.statemachine.*;
import com.webotech.statemachine.api.*;
import com.webotech.statemachine.service.*;
import com.webotech.statemachine.service.api.*;
import com.webotech.statemachine.strategy.*;
import java.lang.reflect.*;
import java.util.*;
import java.util.function.BooleanSupplier;

/** an app whose fired events are recorded */
final class AppRig {
  static final class Ctx extends AbstractAppContext<Ctx> {
    Ctx(String n) { super(n); }
  }
  static final class App extends AbstractAppService<Ctx> {
    App(Ctx c) { super(c); }
    App(Ctx c, boolean exit) { super(c, exit); }
  }

  /** "fire NAME", "start i", "stop i" in the order they happened */
  final List<String> log = Collections.synchronizedList(new ArrayList<>());
  final Ctx ctx;
  App app;
  boolean recording;
  volatile Throwable thrown;
  volatile boolean returned;
  Thread starter;

  AppRig(String name) { ctx = new Ctx(name); }

  @SuppressWarnings({"unchecked", "rawtypes"})
  void build(boolean exit, boolean oneArg) {
    app = oneArg && exit ? new App(ctx) : new App(ctx, exit);
    try {
      Object m = null;
      for (Field f : AbstractAppService.class.getDeclaredFields()) if (StateMachine.class.isAssignableFrom(f.getType())) {
        f.setAccessible(true);
        m = f.get(app);
      }
      if (!(m instanceof GenericStateMachine)) return;
      boolean a = false, b = false;
      for (Field f : GenericStateMachine.class.getDeclaredFields()) {
        f.setAccessible(true);
        if (f.getType() == EventProcessingStrategy.class) {
          EventProcessingStrategy old = (EventProcessingStrategy) f.get(m);
          f.set(m, new EventProcessingStrategy() {
            public void processEvent(StateEvent e, GenericStateMachine g) { log.add("fire " + e.getName()); old.processEvent(e, g); }
            public void setStates(Map s) { old.setStates(s); }
            public int getEventQueueSize() { return old.getEventQueueSize(); }
            public UnexpectedFlowListener getUnexpectedFlowListener() { return old.getUnexpectedFlowListener(); }
          });
          a = true;
        } else if (f.getType() == UnexpectedFlowListener.class) {
          UnexpectedFlowListener old = (UnexpectedFlowListener) f.get(m);
          f.set(m, new UnexpectedFlowListener() {
            public void onExceptionDuringEventProcessing(StateEvent e, StateMachine g, Thread t, Exception x) { old.onExceptionDuringEventProcessing(e, g, t, x); }
            public void onEventAfterMachineEnd(StateEvent e, StateMachine g) { log.add("fire " + e.getName()); }
            public void onEventBeforeMachineStart(StateEvent e, StateMachine g) { log.add("fire " + e.getName()); }
          });
          b = true;
        }
      }
      recording = a && b;
    } catch (ReflectiveOperationException e) {
      recording = false;
    }
  }

  /** the log without the fired events when those cannot be recorded */
  List<String> seen(List<String> want) {
    if (recording) return want;
    List<String> l = new ArrayList<>();
    for (String s : want) if (!s.startsWith("fire")) l.add(s);
    return l;
  }

  String state() {
    State<?, ?> s = app.getLifecycleState();
    return s == null ? "null" : s.getName();
  }

  void startInBackground() {
    starter = new Thread(() -> {
      try { app.start(); } catch (Throwable t) { thrown = t; }
      returned = true;
    });
    starter.setDaemon(true);
    starter.start();
  }

  static boolean await(BooleanSupplier b) {
    long end = System.nanoTime() + 8_000_000_000L;
    int i = 0;
    while (!b.getAsBoolean()) {
      if (System.nanoTime() > end) return b.getAsBoolean();
      if (++i < 200) Thread.onSpinWait(); else if (i < 400) Thread.yield(); else java.util.concurrent.locks.LockSupport.parkNanos(50_000);
    }
    return true;
  }

  boolean awaitState(String s) { return await(() -> state().equals(s)); }

  @SuppressWarnings("unchecked")
  static <E extends Throwable> void sneaky(Throwable t) throws E { throw (E) t; }
}
