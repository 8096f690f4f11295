package vh;

import com.webotech.statemachine.*;
import com.webotech.statemachine.api.*;
import com.webotech.statemachine.strategy.*;
import java.util.*;

public final class C06 {
  static String proj(String t) {
    if (t.startsWith("fire") || t.startsWith("refire")) return null;
    return t;
  }
  public static void seq(Rep rep) {
    int n = rep.thorough ? 400000 : 40000;
    World.Gen g = new World.Gen(rep.seed);
    g.pActs = 85; g.pEnds = 4; g.pEnd = 4; g.pStop = 2; g.maxOps = 10;
    g.actKinds = new int[] {World.THROW_RT, World.THROW_RT, World.THROW_CHECKED, World.THROW_ERR, World.FIRE};
    World.drive(rep, "failing callbacks", g, C06::proj, n);
    recycle(rep);
    reports(rep);
  }

  /** fired on one thread, processed on another: who is told what, also when several events fail in the same way */
  static void reports(Rep rep) {
    rep.family("reports from another thread");
    RuntimeException one = new World.Boom("one");
    for (int kind = 0; kind < 4; kind++) for (int where = 0; where < 4; where++) for (int payload = 0; payload < 2; payload++) for (int own = 0; own < 2; own++) {
      String sc = "events fail with " + new String[] {"the same exception", "equal exceptions", "different exceptions", "the same and another in turn"}[kind] + " in callback " + where + ", payload " + payload + ", processed on a thread of its own " + own;
      rep.begin(sc);
      World.Exec ex = new World.Exec();
      U.Ufl u = new U.Ufl();
      List<Throwable> thrown = new ArrayList<>();
      List<Object> failed = new ArrayList<>();
      GenericStateMachine<Object, Object> m = U.machine(EventProcessingStrategyFactory.createDefaultStrategy(U.cfg().withExecutor(ex).withUnexpectedFlowListener(u)
          .withUnmappedEventHandler((e, s) -> { })));
      NamedState<Object, Object> a = U.st("A");
      int k = kind, at = where;
      boolean[] on = {false};
      java.util.function.Consumer<StateEvent<Object>> boom = e -> {
        if (!on[0] || e.getName().equals("fine")) return;
        RuntimeException x = k == 0 || k == 3 && thrown.size() % 2 == 0 ? one : k == 1 ? new World.Boom("equal") : new IllegalArgumentException("d" + thrown.size());
        thrown.add(x);
        failed.add(e);
        throw x;
      };
      if (where == 0) a.appendExitActions((e, s) -> boom.accept(e));
      if (where == 1) a.appendEntryActions((e, s) -> boom.accept(e));
      m.setStateMachineListener(new StateMachineListener<Object, Object>() {
        public void onStateChangeBegin(State<Object, Object> f, StateEvent<Object> e, State<Object, Object> t) { if (at == 2) boom.accept(e); }
        public void onStateChangeEnd(State<Object, Object> f, StateEvent<Object> e, State<Object, Object> t) { if (at == 3) boom.accept(e); }
      });
      m.initialSate(a).receives(U.ev("x")).itTransitionsTo(a);
      m.when(a).receives(U.ev("fine")).itTransitionsTo(a);
      m.start();
      on[0] = true;
      NamedStateEvent<Object> e = payload == 0 ? U.ev("x") : U.ev("x", "p");
      Thread[] t = {Thread.currentThread()};
      for (int round = 0; round < 3; round++) {
        for (int i = 0; i < 3; i++) { m.fire(e); if (i == 1) m.fire(U.ev("fine")); }
        if (own == 1) {
          t[0] = new Thread(ex::all);
          t[0].start();
          try { t[0].join(); } catch (InterruptedException z) { }
        } else ex.all();
        if (thrown.size() != 3 * (round + 1)) { rep.fail("processed", thrown.size() + " events failed", sc); break; }
        if (u.exc.size() != thrown.size()) { rep.fail("reported", thrown.size() + " events failed, " + u.exc.size() + " reports", sc); break; }
        for (int i = 3 * round; i < u.exc.size(); i++) {
          Object[] r = u.exc.get(i);
          rep.check(r[0] == failed.get(i) || r[0] instanceof StateEvent && r[0].equals(e), "event", "told event " + r[0], sc);
          rep.check(r[1] == m, "machine", "told another machine", sc);
          rep.check(r[2] == t[0], "thread", "told thread " + r[2] + ", processed on " + t[0], sc);
          rep.check(r[3] == thrown.get(i), "exception", "told " + r[3] + " instead of " + thrown.get(i), sc);
        }
      }
      rep.eval(sc);
    }
  }

  /** the carriers: after each event exactly one carrier more is free, never two for one event, never before it is finished with */
  static void recycle(Rep rep) {
    rep.family("carrier recycling");
    for (int mode = 0; mode < 6; mode++) {        // what the action does: nothing, RuntimeException, checked, error, listener error, ended machine
      for (int first = 1; first <= 4; first++) {
        String sc = "recycling: outcome " + mode + ", " + first + " events first";
        rep.begin(sc);
        World.Exec ex = new World.Exec();
        List<Object> offered = new ArrayList<>();
        List<Object> inUse = new ArrayList<>();
        GenericStateMachine<Object, Object>[] h = new GenericStateMachine[1];
        NamedStateEvent<Object> nested = new NamedStateEvent<>("n");
        int[] mode_ = {mode};
        boolean[] did = {false};
        var q = new java.util.concurrent.ConcurrentLinkedQueue<EventMachinePair<Object, Object>>() {
          @Override public boolean offer(EventMachinePair<Object, Object> p) { offered.add(p); return super.offer(p); }
          @Override public boolean add(EventMachinePair<Object, Object> p) { return offer(p); }
        };
        UnexpectedFlowListener<Object, Object> ufl = new UnexpectedFlowListener<Object, Object>() {
          public void onExceptionDuringEventProcessing(StateEvent<Object> e, StateMachine<Object, Object> m, Thread t, Exception x) {
            if (mode_[0] == 4) throw new World.Err("listener");
            int b = offered.size();
            if (!did[0]) { did[0] = true; m.fire(nested); if (offered.size() > b) inUse.add(offered.get(b)); }
          }
          public void onEventAfterMachineEnd(StateEvent<Object> e, StateMachine<Object, Object> m) { }
          public void onEventBeforeMachineStart(StateEvent<Object> e, StateMachine<Object, Object> m) { }
        };
        GenericStateMachine<Object, Object> m = new GenericStateMachine.Builder<Object, Object>().setEventProcessingStrategy(
            EventProcessingStrategyFactory.createDefaultStrategy(new EventProcessingStrategyFactory.Config<Object, Object>().withExecutor(ex)
                .withEventQueue(q).withUnexpectedFlowListener(ufl))).build();
        NamedState<Object, Object> a = new NamedState<>("A");
        boolean[] boom = {true};
        a.appendEntryActions((e, s) -> {
          if (!boom[0] || e.getName().startsWith("_")) return;
          boom[0] = false;
          switch (mode_[0]) {
            case 0: s.fire(nested); inUse.add(offered.get(offered.size() - 1)); break;
            case 1: case 4: throw new World.Boom("r");
            case 2: World.<RuntimeException>sneaky(new World.Checked("c")); break;
            case 3: throw new World.Err("e");
            default:
          }
        });
        m.initialSate(a).receives(new NamedStateEvent<>("x")).itTransitionsTo(a);
        m.when(a).receives(nested).itDoesNotTransition();
        m.start();
        for (int i = 0; i < first; i++) m.fire(new NamedStateEvent<>("x"));
        Set<Object> used = Collections.newSetFromMap(new IdentityHashMap<>());
        used.addAll(offered);
        rep.check(used.size() == first, "carrier-shared", "waiting events share a carrier", sc);
        Object firstCarrier = offered.get(0);
        if (mode == 5) { /* ended machine: its waiting events are discarded */ m.stop(); }
        ex.all();
        for (Object o : inUse) rep.check(o != firstCarrier, "carrier-early", "carrier reused while its event was still being processed", sc);
        rep.eval(sc);
        if (mode == 5) {
          continue;
        }
        // now everything is free: the same number of waiting events must find that many different old carriers and no more
        Set<Object> old = Collections.newSetFromMap(new IdentityHashMap<>());
        old.addAll(offered);
        int n0 = offered.size();
        for (int i = 0; i < old.size() + 2; i++) m.fire(new NamedStateEvent<>("x"));
        Set<Object> now = Collections.newSetFromMap(new IdentityHashMap<>());
        now.addAll(offered.subList(n0, offered.size()));
        rep.check(now.size() == old.size() + 2, "carrier-twice", "a carrier was recycled twice: two waiting events share it", sc);
        int reused = 0;
        for (Object o : now) if (old.contains(o)) reused++;
        rep.check(reused == old.size(), "carrier-lost", reused + " of " + old.size() + " carriers were recycled", sc);
        ex.all();
      }
    }
  }
}
