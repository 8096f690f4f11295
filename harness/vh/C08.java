package vh;

import com.webotech.statemachine.*;
import com.webotech.statemachine.api.*;
import com.webotech.statemachine.strategy.*;
import java.util.*;
import java.util.concurrent.ConcurrentLinkedQueue;

public final class C08 {
  public static void seq(Rep rep) {
    World.Gen g = new World.Gen(rep.seed);
    g.dup = true; g.maxOps = 14; g.pEnds = 2; g.pStop = 2;
    g.actKinds = new int[] {World.FIRE, World.FIRE2, World.FIRE, World.THROW_RT};
    World.drive(rep, "drop-duplicate machines", g, t -> t.startsWith("fire") ? null : t, rep.thorough ? 300000 : 30000);
    dup(rep);
    many(rep);
    equality(rep);
    delegate(rep);
  }

  /** far more waiting events than usual */
  static void many(Rep rep) {
    rep.family("thousands waiting");
    int n = 3000;
    for (int h : rep.nums) if (h >= 3000 && h < 20000) n = h + 2;
    String sc = n + " waiting events, then each fired again";
    rep.begin(sc);
    World.Exec ex = new World.Exec();
    GenericStateMachine<Object, Object> m = U.machine(EventProcessingStrategyFactory.createDropDuplicateStrategy(U.cfg().withExecutor(ex)));
    NamedState<Object, Object> a = U.st("A");
    m.initialSate(a).receives(U.ev("x")).itTransitionsTo(a);
    m.start();
    for (int i = 0; i < n; i++) m.fire(U.ev("e" + i));
    if (m.getEventQueueSize() != n) { rep.fail("dropped-new", m.getEventQueueSize() + " waiting", sc); return; }
    for (int i = 0; i < n; i = i < 40 || i >= n - 40 ? i + 1 : Math.min(n - 40, i + 97)) {
      m.fire(U.ev("e" + i));
      if (m.getEventQueueSize() != n) { rep.fail("kept-duplicate", "event " + i + " was queued again, " + m.getEventQueueSize() + " waiting", sc); return; }
    }
    rep.eval(sc);
  }

  static void dup(Rep rep) {
    rep.family("duplicates by position");
    Set<Integer> lens = new TreeSet<>(List.of(0, 1, 2, 3, 5, 8, 16, 17, 33, 64, 100, 129, 260));
    for (int h : rep.nums) if (h >= 0 && h < 3000) { lens.add(h); lens.add(h + 1); lens.add(h + 2); }
    List<String> nm = new ArrayList<>(List.of("Aa", "BB", "", "x", "x ", "X"));
    nm.addAll(rep.names);
    for (int len : lens) {
      for (int pos = -1; pos < len; pos += (len > 40 && pos > 4 && pos < len - 6) ? Math.min(7, len - 6 - pos) : 1) {
        for (int pl = 0; pl < 4; pl++) {
          String sc = len + " waiting, equal one at " + pos + ", payload " + pl;
          rep.begin(sc);
          World.Exec ex = new World.Exec();
          U.Ufl u = new U.Ufl();
          var q = new ConcurrentLinkedQueue<EventMachinePair<Object, Object>>();
          GenericStateMachine<Object, Object> m = U.machine(EventProcessingStrategyFactory.createDropDuplicateStrategy(U.cfg().withExecutor(ex).withUnexpectedFlowListener(u).withEventQueue(q)));
          NamedState<Object, Object> a = U.st("A");
          List<Object> got = new ArrayList<>(), want = new ArrayList<>();
          a.appendEntryActions((e, s) -> { if (s != m) got.add("other machine"); got.add(e.getName() + e.getPayload()); });
          m.initialSate(a);
          for (int i = 0; i < len; i++) { if (i > 0) m.when(a); m.receives(U.ev("e" + i)).itTransitionsTo(a); }
          if (len > 0) m.when(a);
          m.receives(U.ev("dup")).itTransitionsTo(a);
          m.start();
          got.clear();
          for (int i = 0; i < len; i++) {
            String n = i == pos ? "dup" : "e" + i;
            Object p = (pl & 1) == 1 ? "p" + i : null;
            m.fire(U.ev(n, p));
            want.add(n + p);
          }
          int s0 = ex.submitted;
          Object p2 = (pl & 2) == 2 ? "q" : null;
          m.fire(U.ev(new String("dup"), p2));
          if (pos < 0) want.add("dup" + p2);
          rep.check(m.getEventQueueSize() == want.size(), pos < 0 ? "dropped-new" : "kept-duplicate", "queue size " + m.getEventQueueSize() + " expected " + want.size(), sc);
          rep.check(ex.submitted == s0 + (pos < 0 ? 1 : 0), "scheduling", "scheduled", sc);
          rep.check(u.exc.size() + u.after.size() + u.before.size() == 0, "reported", "reported", sc);
          ex.all();
          rep.check(got.equals(want), "processing", "processed " + cut(got) + " expected " + cut(want), sc);
          m.fire(U.ev("dup"));
          rep.check(m.getEventQueueSize() == 1, "dropped-after-processing", "an event equal to a processed one was dropped", sc);
          rep.eval(sc);
          if (rep.late()) return;
        }
      }
    }
    // different names never count as equal; fired while an equal one is being processed
    for (String x : nm) for (String y : nm) {
      String sc = "names <" + x + "> <" + y + ">";
      if (x == null || y == null || x.startsWith("_") || y.startsWith("_")) continue;
      World.Exec ex = new World.Exec();
      GenericStateMachine<Object, Object> m = U.machine(EventProcessingStrategyFactory.createDropDuplicateStrategy(U.cfg().withExecutor(ex)));
      NamedState<Object, Object> a = U.st("A");
      int[] n = {0};
      a.appendEntryActions((e, s) -> { if (n[0]++ == 1) s.fire(U.ev(x)); });
      m.initialSate(a).receives(U.ev(x)).itTransitionsTo(a);
      if (!x.equals(y)) m.when(a).receives(U.ev(y)).itTransitionsTo(a);
      m.start();
      m.fire(U.ev(x));
      m.fire(U.ev(y));
      int w = x.equals(y) ? 1 : 2;
      rep.check(m.getEventQueueSize() == w, "names", "queue size " + m.getEventQueueSize(), sc);
      ex.all();
      // 1 start + processed + the one fired while an equal one was being processed
      rep.check(n[0] == 1 + w + 1, "while-processing", "processed " + n[0] + " expected " + (w + 2), sc);
      rep.eval(sc);
      if (rep.late()) return;
    }
    // two machines on one strategy: an equal event of any machine is waiting in the queue
  }

  /** an event whose equality is what its class says it is: of the key, whatever the name */
  static final class Keyed implements StateEvent<Object> {
    final String name; final int key; Object payload;
    Keyed(String name, int key) { this.name = name; this.key = key; }
    @Override public String getName() { return name; }
    @Override public Object getPayload() { return payload; }
    @Override public void setPayload(Object p) { payload = p; }
    @Override public boolean equals(Object o) { return o instanceof Keyed && ((Keyed) o).key == key; }
    @Override public int hashCode() { return key & 1; }
    @Override public String toString() { return name + "#" + key; }
  }

  static void equality(Rep rep) {
    rep.family("equality of the events' own class");
    for (int len = 0; len < 5; len++) for (int code = 0; code < (int) Math.pow(6, len + 1); code++) {
      String sc = len + " waiting, code " + code;
      World.Exec ex = new World.Exec();
      GenericStateMachine<Object, Object> m = U.machine(EventProcessingStrategyFactory.createDropDuplicateStrategy(U.cfg().withExecutor(ex)));
      NamedState<Object, Object> a = U.st("A");
      List<Object> got = new ArrayList<>(), want = new ArrayList<>();
      m.initialSate(a);
      Keyed[] ev = new Keyed[6];
      for (int i = 0; i < 6; i++) ev[i] = new Keyed(i % 2 == 0 ? "x" : "y", i / 2);
      Set<Integer> keys = new HashSet<>();
      for (int i = 0; i < 6; i += 2) { if (i > 0) m.when(a); m.receives(ev[i]).itTransitionsTo(a); }
      m.start();
      a.appendEntryActions((e, s) -> got.add(((Keyed) e).key));
      for (int i = 0, x = code; i <= len; i++, x /= 6) {
        m.fire(ev[x % 6]);
        if (keys.add(x % 6 / 2)) want.add(x % 6 / 2);
      }
      rep.check(m.getEventQueueSize() == want.size(), m.getEventQueueSize() < want.size() ? "dropped-new" : "kept-duplicate", "queue size " + m.getEventQueueSize() + " expected " + want.size(), sc);
      ex.all();
      rep.check(got.equals(want), "processing", "processed " + got + " expected " + want, sc);
      rep.eval(sc);
      if (rep.late()) return;
    }
  }

  static List<Object> cut(List<Object> l) { return l.size() > 12 ? l.subList(0, 12) : l; }

  static void delegate(Rep rep) {
    rep.family("delegation");
    for (int n = 0; n < 5; n++) {
      String sc = "delegation with " + n + " waiting";
      World.Exec ex = new World.Exec();
      U.Ufl u = new U.Ufl();
      DefaultEventStrategy<Object, Object> d = (DefaultEventStrategy<Object, Object>) EventProcessingStrategyFactory.createDefaultStrategy(U.cfg().withExecutor(ex).withUnexpectedFlowListener(u));
      DropDuplicateEventStrategy<Object, Object> dd = new DropDuplicateEventStrategy<>(d);
      GenericStateMachine<Object, Object> m = U.machine(dd);
      NamedState<Object, Object> a = U.st("A"), b = U.st("B");
      m.initialSate(a).receives(U.ev("e0")).itTransitionsTo(b);
      for (int i = 0; i < 5; i++) { m.when(b).receives(U.ev("e" + i)).itTransitionsTo(b); }
      m.start();
      for (int i = 0; i < n; i++) m.fire(U.ev("e" + i));
      rep.check(dd.getEventQueueSize() == d.getEventQueueSize() && d.getEventQueueSize() == n, "size", "sizes differ", sc);
      rep.check(dd.getUnexpectedFlowListener() == u && d.getUnexpectedFlowListener() == u, "listener", "listener differs", sc);
      ex.all();
      rep.check(m.getCurrentState() == (n > 0 ? b : a), "table", "table of the wrapped strategy not set", sc);
      rep.eval(sc);
    }
  }
}
