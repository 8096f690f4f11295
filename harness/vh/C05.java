package vh;

import com.webotech.statemachine.*;
import com.webotech.statemachine.api.*;
import com.webotech.statemachine.strategy.*;
import java.util.*;

public final class C05 {
  static String proj(String t) {
    return t.startsWith("EXC") || t.startsWith("fire") || t.startsWith("refire") || t.startsWith("OPEXC") ? null : t;
  }
  public static void seq(Rep rep) {
    int n = rep.thorough ? 500000 : 50000;
    World.Gen g = new World.Gen(rep.seed);
    g.maxOps = 14; g.pEnds = 8; g.pEnd = 6;
    World.drive(rep, "processing order", g, C05::proj, n);
    shared(rep);
    burst(rep);
  }

  /** two machines on one queue and executor: an ended machine's events are discarded, the other's are processed */
  static void shared(Rep rep) {
    rep.family("two machines, one strategy queue");
    for (int code = 0; code < 256; code++) {
      for (int stop = 0; stop < 4; stop++) {
        String sc = "shared queue: firing pattern " + Integer.toBinaryString(code | 256).substring(1) + " stop=" + stop;
        rep.begin(sc);
        World.Exec ex = new World.Exec();
        var q = new java.util.concurrent.ConcurrentLinkedQueue<EventMachinePair<Object, Object>>();
        List<String> log = new ArrayList<>(), want = new ArrayList<>();
        List<GenericStateMachine<Object, Object>> ms = new ArrayList<>();
        for (int i = 0; i < 2; i++) {
          GenericStateMachine<Object, Object> m = new GenericStateMachine.Builder<Object, Object>().setEventProcessingStrategy(
              EventProcessingStrategyFactory.createDefaultStrategy(new EventProcessingStrategyFactory.Config<Object, Object>().withExecutor(ex).withEventQueue(q))).build();
          NamedState<Object, Object> a = new NamedState<>("A");
          a.appendEntryActions((e, s) -> { if (e.getPayload() != null) log.add(ms.indexOf(s) + "" + e.getPayload()); });
          m.initialSate(a).receives(new NamedStateEvent<>("x")).itTransitionsTo(a);
          m.start();
          ms.add(m);
        }
        for (int k = 0; k < 8; k++) {
          int w = code >> k & 1;
          NamedStateEvent<Object> e = new NamedStateEvent<>("x");
          e.setPayload("e" + k);
          ms.get(w).fire(e);
          if (!((stop & 1) != 0 && w == 0) && !((stop & 2) != 0 && w == 1)) want.add(w + "e" + k);
        }
        if ((stop & 1) != 0) ms.get(0).stop();
        if ((stop & 2) != 0) ms.get(1).stop();
        ex.all();
        rep.eval(sc);
        rep.check(log.equals(want), "shared-queue", "processed " + log + " expected " + want, sc);
        if (rep.late()) return;
      }
    }
  }

  /** many events waiting */
  static void burst(Rep rep) {
    rep.family("long queues");
    List<Integer> ns = new ArrayList<>(List.of(1, 2, 3, 9, 17, 33, 65, 101, 130, 257, 520, 1025, 2100, 5000));
    for (int h : rep.nums) if (h > 0 && h < 20000) { ns.add(h); ns.add(h + 1); ns.add(2 * h + 1); }
    for (int n : ns) {
      for (int same = 0; same < 3; same++) {
        String sc = n + " events waiting, mode " + same;
        rep.begin(sc);
        World.Exec ex = new World.Exec();
        GenericStateMachine<Object, Object> m = new GenericStateMachine.Builder<Object, Object>().setEventProcessingStrategy(
            EventProcessingStrategyFactory.createDefaultStrategy(new EventProcessingStrategyFactory.Config<Object, Object>().withExecutor(ex))).build();
        NamedState<Object, Object> a = new NamedState<>("A");
        List<Object> got = new ArrayList<>(), want = new ArrayList<>();
        a.appendEntryActions((e, s) -> { if (!e.getName().startsWith("_")) got.add(e.getPayload() == null ? e : e.getPayload()); });
        m.initialSate(a).receives(new NamedStateEvent<>("x")).itTransitionsTo(a);
        m.start();
        for (int k = 0; k < n; k++) {
          NamedStateEvent<Object> e = new NamedStateEvent<>("x");
          if (same == 0) { e.setPayload(k); want.add(k); } else want.add(e);
          m.fire(e);
          if (same == 2 && k % 3 == 0) ex.one();
        }
        rep.check(same == 2 || m.getEventQueueSize() == n, "burst-size", "queue size " + m.getEventQueueSize() + " for " + n, sc);
        ex.all();
        boolean ok = got.size() == want.size();
        for (int k = 0; ok && k < n; k++) ok = got.get(k) == want.get(k) || same == 0 && got.get(k).equals(want.get(k));
        rep.eval(sc);
        rep.check(ok, "burst", "processed " + got.size() + " of " + n + " or out of order", sc);
        rep.check(m.getEventQueueSize() == 0, "burst-left", "events left behind", sc);
        if (rep.late()) return;
      }
    }
  }

  static final class Race implements Sched.Scn {
    final int kind;
    final List<String> log = new ArrayList<>();
    int active, maxActive;
    GenericStateMachine<Object, Object> m;
    String bad;
    final List<String> exc = new ArrayList<>();
    Race(int k) { kind = k; }
    public void body() {
      Sched.Exec ex = (Sched.Exec) Sched.single(null);
      m = new GenericStateMachine.Builder<Object, Object>().setEventProcessingStrategy(
          EventProcessingStrategyFactory.createDefaultStrategy(new EventProcessingStrategyFactory.Config<Object, Object>().withExecutor(ex)
              .withUnexpectedFlowListener(new UnexpectedFlowListener<Object, Object>() {
                public void onExceptionDuringEventProcessing(StateEvent<Object> e, StateMachine<Object, Object> mm, Thread t, Exception x) { exc.add(String.valueOf(x)); }
                public void onEventAfterMachineEnd(StateEvent<Object> e, StateMachine<Object, Object> mm) { }
                public void onEventBeforeMachineStart(StateEvent<Object> e, StateMachine<Object, Object> mm) { }
              }))).build();
      NamedState<Object, Object> a = new NamedState<>("A");
      a.appendEntryActions((e, s) -> {
        if (e.getName().startsWith("_")) return;
        active++;
        maxActive = Math.max(active, maxActive);
        Sched.point();
        log.add(String.valueOf(e.getPayload()));
        if (kind == 2 && log.size() == 1) fire("c", 1);
        Sched.point();
        active--;
      });
      m.initialSate(a).receives(new NamedStateEvent<>("x")).itTransitionsTo(a);
      m.start();
      if (kind == 0 || kind == 2) {
        fire("a", 2);
      } else {
        Sched.spawnT(() -> fire("b", 2));
        fire("a", 2);
      }
    }
    void fire(String p, int n) {
      for (int i = 0; i < n; i++) {
        NamedStateEvent<Object> e = new NamedStateEvent<>("x");
        e.setPayload(p + i);
        m.fire(e);
      }
    }
    public String check(Sched s) {
      if (s.stuck != null) return s.stuck;
      if (s.uncaught != null) return "unexpected " + s.uncaught;
      if (!exc.isEmpty()) return "reported " + exc;
      int want = kind == 0 ? 2 : kind == 1 ? 4 : 3;
      if (log.size() != want) return "processed " + log;
      if (new HashSet<>(log).size() != want) return "processed twice " + log;
      if (log.indexOf("a0") > log.indexOf("a1")) return "out of order " + log;
      if (kind == 1 && log.indexOf("b0") > log.indexOf("b1")) return "out of order " + log;
      if (maxActive > 1) return "two events processed at once";
      if (m.getEventQueueSize() != 0) return "events left in the queue";
      return null;
    }
  }

  public static void conc(Rep rep) {
    String[] nm = {"one producer", "two producers", "producer and action"};
    for (int k = 0; k < nm.length; k++) {
      int kk = k;
      rep.family(nm[k]);
      for (int b = 1; b <= 2; b++) {
        rep.begin(nm[k]);
        String r = Sched.explore(rep, nm[k], () -> new Race(kk), b, rep.thorough ? 60000 : 3000);
        if (r != null) { rep.fail("interleaving: " + nm[k], r, nm[k] + " (preemption bound " + b + ")"); break; }
      }
    }
  }
}
