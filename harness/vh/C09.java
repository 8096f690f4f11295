package vh;

import com.webotech.statemachine.*;
import com.webotech.statemachine.api.*;
import com.webotech.statemachine.strategy.*;
import java.math.BigInteger;
import java.util.*;

public final class C09 {
  static String proj(String t) { return t.startsWith("S ") || t.startsWith("OPEXC") || t.startsWith("ESC") ? null : t; }

  public static void seq(Rep rep) {
    World.Gen g = new World.Gen(rep.seed);
    g.maxOps = 14; g.pEnds = 2; g.pStop = 0; g.pPayload = 70; g.pActs = 70;
    g.actKinds = new int[] {World.MUTATE, World.MUTATE, World.FIRE, World.THROW_RT};
    World.drive(rep, "payloads", g, C09::proj, rep.thorough ? 400000 : 40000);
    direct(rep);
    custom(rep);
  }

  static void direct(Rep rep) {
    rep.family("same event object with several payloads");
    List<Object> pls = new ArrayList<>(Arrays.asList("p", "", 0, 1, -1, false, true, new Object(), new int[0], List.of(), 'c', 0.0, U.ev("x"), U.st("A"), Thread.currentThread(), Optional.empty(), null));
    // equal payloads that are different objects
    pls.addAll(List.of(new ArrayList<>(), new ArrayList<>(), new String("p"), new BigInteger("77777777777"), new BigInteger("77777777777")));
    for (String s : rep.names) pls.add(s);
    for (int i : rep.nums) pls.add(i);
    for (int dd = 0; dd < 2; dd++) for (Object p1 : pls) for (Object p2 : pls) {
      String sc = "payloads <" + p1 + "> then <" + p2 + "> dd=" + dd;
      rep.begin(sc);
      World.Exec ex = new World.Exec();
      var c = U.cfg().withExecutor(ex);
      GenericStateMachine<Object, Object> m = U.machine(dd == 0 ? EventProcessingStrategyFactory.createDefaultStrategy(c) : EventProcessingStrategyFactory.createDropDuplicateStrategy(c));
      NamedState<Object, Object> a = U.st("A"), b = U.st("B");
      List<StateEvent<Object>> ent = new ArrayList<>(), all = new ArrayList<>();
      List<Object> seen = new ArrayList<>();
      NamedStateEvent<Object> e = U.ev("x");
      StateAction<Object, Object> act = (v, s) -> { if (!v.getName().startsWith("_")) { seen.add(v.getPayload()); all.add(v); } };
      for (var s : List.of(a, b)) { s.appendEntryActions(act); s.appendExitActions(act); }
      m.setStateMachineListener(new StateMachineListener<Object, Object>() {
        public void onStateChangeBegin(State<Object, Object> f, StateEvent<Object> v, State<Object, Object> t) { act.execute(v, m); }
        public void onStateChangeEnd(State<Object, Object> f, StateEvent<Object> v, State<Object, Object> t) { act.execute(v, m); }
      });
      m.initialSate(a).receives(e).itTransitionsTo(b);
      m.when(b).receives(e).itTransitionsTo(a);
      m.start();
      e.setPayload(p1);
      m.fire(e);
      rep.check(e.getPayload() == p1 && e.getName().equals("x"), "event-modified", "the fired event was modified", sc);
      if (p1 != null) e.setPayload(p2);
      int k = 1;
      if (dd == 0 && p1 != null) { m.fire(e); k = 2; rep.check(e.getPayload() == p2, "event-modified", "the fired event was modified", sc); }
      if (k == 2 && p2 != null) e.setPayload("later");
      ex.all();
      rep.check(seen.size() == 4 * k, "count", "callbacks " + seen.size(), sc);
      for (int i = 0; i < seen.size(); i++) {
        Object w = i < 4 ? p1 : p2;
        rep.check(seen.get(i) == w, "payload", "callback " + i + " saw payload " + seen.get(i) + " instead of " + w + (w != null && w.equals(seen.get(i)) ? " (equal, but another object)" : ""), sc);
        rep.check(all.get(i).equals(e) && all.get(i).getName().equals("x"), "equal", "callback saw an event not equal to the fired one", sc);
        if (w == null) rep.check(all.get(i) == e, "same-object", "an event without payload must be the very object fired", sc);
      }
      rep.eval(sc);
      if (rep.late()) return;
    }
  }

  static final class My implements StateEvent<Object> {
    Object p;
    public String getName() { return "mine"; }
    public Object getPayload() { return p; }
    public void setPayload(Object o) { p = o; }
    public boolean equals(Object o) { return o instanceof My; }
    public int hashCode() { return 5; }
  }

  /** an event class of the user's own */
  static void custom(Rep rep) {
    rep.family("user-defined event class");
    for (int k = 0; k < 2; k++) {
      String sc = "user-defined StateEvent " + (k == 1 ? "with" : "without") + " payload";
      World.Exec ex = new World.Exec();
      GenericStateMachine<Object, Object> m = U.machine(EventProcessingStrategyFactory.createDefaultStrategy(U.cfg().withExecutor(ex)));
      NamedState<Object, Object> a = U.st("A"), b = U.st("B");
      List<StateEvent<Object>> seen = new ArrayList<>();
      b.appendEntryActions((v, s) -> seen.add(v));
      m.initialSate(a).receives(new My()).itTransitionsTo(b);
      m.start();
      My e = new My();
      if (k == 1) e.p = "pl";
      m.fire(e);
      ex.all();
      boolean ok = seen.size() == 1 && seen.get(0).equals(e) && seen.get(0).getPayload() == e.p;
      rep.check(ok, k == 1 ? "custom-event-with-payload" : "custom-event", "action saw " + seen.size() + " events equal to the fired one", sc);
      rep.eval(sc);
    }
  }
}
