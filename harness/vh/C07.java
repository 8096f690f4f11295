package vh;

import com.webotech.statemachine.*;
import com.webotech.statemachine.api.*;
import com.webotech.statemachine.strategy.*;
import java.util.*;
import java.util.concurrent.ConcurrentLinkedQueue;

public final class C07 {
  public static void seq(Rep rep) {
    World.Gen g = new World.Gen(rep.seed);
    g.bounds = true; g.maxOps = 14; g.pEnds = 0; g.pStop = 2;
    g.actKinds = new int[] {World.FIRE, World.FIRE2, World.FIRE, World.THROW_RT};
    World.drive(rep, "bounded machines", g, t -> t.startsWith("EXC") || t.startsWith("S ") || t.startsWith("B ") ? t : null, rep.thorough ? 300000 : 30000);
    bound(rep);
    declining(rep);
  }

  static void bound(Rep rep) {
    rep.family("bound");
    Set<Integer> maxes = new TreeSet<>(List.of(Integer.MIN_VALUE, -100, -2, -1, 0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 500, 1000, 1023, 1024, 1025, Integer.MAX_VALUE));
    for (int h : rep.nums) if (Math.abs((long) h) < 6000) for (int d = -1; d <= 1; d++) maxes.add(h + d);
    for (int max : maxes) {
      for (int dd = 0; dd < 2; dd++) {
        for (int pl = 0; pl < 2; pl++) {
        int total = max > 0 && max < 5000 ? max + 4 : 1300;
        String sc = "max=" + max + " dropDuplicate=" + dd + " payload=" + pl + " fired=" + total;
        rep.begin(sc);
        World.Exec ex = new World.Exec();
        U.Ufl u = new U.Ufl();
        var q = new ConcurrentLinkedQueue<EventMachinePair<Object, Object>>();
        var c = U.cfg().withExecutor(ex).withMaxQueueSize(max).withUnexpectedFlowListener(u).withEventQueue(q);
        GenericStateMachine<Object, Object> m = U.machine(dd == 0 ? EventProcessingStrategyFactory.createDefaultStrategy(c) : EventProcessingStrategyFactory.createDropDuplicateStrategy(c));
        NamedState<Object, Object> a = U.st("A");
        int[] n = {0};
        a.appendEntryActions((e, s) -> n[0]++);
        m.initialSate(a);
        if (dd == 0) m.receives(U.ev("x")).itTransitionsTo(a);
        else for (int i = 0; i < total; i++) { if (i > 0) m.when(a); m.receives(U.ev("x" + i)).itTransitionsTo(a); }
        m.start();
        n[0] = 0;
        int accepted = 0;
        for (int round = 0; round < 2; round++) {
          for (int i = 0; i < total; i++) {
            NamedStateEvent<Object> e = U.ev(dd == 0 ? "x" : "x" + i, pl == 1 ? "p" : null);
            int q0 = m.getEventQueueSize(), r0 = u.exc.size(), s0 = ex.submitted;
            boolean full = max > 0 && q0 >= max;
            m.fire(e);
            rep.check(m.getEventQueueSize() == q0 + (full ? 0 : 1), full ? "queued-over-bound" : "not-queued", "queue size " + q0 + " -> " + m.getEventQueueSize() + " firing event " + i, sc);
            rep.check(ex.submitted == s0 + (full ? 0 : 1), full ? "scheduled-refused" : "not-scheduled", "scheduled " + (ex.submitted - s0) + " at queue size " + q0, sc);
            rep.check(u.exc.size() == r0 + (full ? 1 : 0), "report", "reports " + (u.exc.size() - r0) + " at queue size " + q0, sc);
            if (u.exc.size() > r0) {
              Object[] r = u.exc.get(r0);
              rep.check(r[0] == e && r[1] == m && r[2] == Thread.currentThread() && r[3] instanceof IllegalStateException, "report-args", Arrays.toString(r), sc);
            }
            rep.check(!(max > 0 && q.size() > max), "bound", "waiting " + q.size(), sc);
            if (!full) accepted++;
            if (rep.late()) return;
            if (round == 1 && i % 3 == 0) ex.one();
          }
          ex.all();
          rep.check(m.getEventQueueSize() == 0, "left", "left " + m.getEventQueueSize(), sc);
        }
        rep.check(n[0] == accepted, "lost", "processed " + n[0] + " accepted " + accepted, sc);
        rep.eval(sc);
        }
      }
    }
  }

  /** a queue that declines some events */
  static void declining(Rep rep) {
    rep.family("declining queue");
    for (int mask = 0; mask < 64; mask++) {
      for (int pl = 0; pl < 2; pl++) {
        String sc = "queue declines offers " + Integer.toBinaryString(mask | 64).substring(1) + " payload=" + pl;
        rep.begin(sc);
        World.Exec ex = new World.Exec();
        U.Ufl u = new U.Ufl();
        int[] k = {0};
        int mk = mask;
        var q = new ConcurrentLinkedQueue<EventMachinePair<Object, Object>>() {
          @Override public boolean offer(EventMachinePair<Object, Object> p) { return (mk >> k[0]++ & 1) == 0 && super.offer(p); }
          @Override public boolean add(EventMachinePair<Object, Object> p) { if (!offer(p)) throw new IllegalStateException("full"); return true; }
        };
        GenericStateMachine<Object, Object> m = U.machine(EventProcessingStrategyFactory.createDefaultStrategy(U.cfg().withExecutor(ex).withUnexpectedFlowListener(u).withEventQueue(q)));
        NamedState<Object, Object> a = U.st("A");
        List<Object> got = new ArrayList<>(), want = new ArrayList<>();
        a.appendEntryActions((e, s) -> { if (e.getName().equals("x") || e.getName().equals("y")) got.add(pl1(e)); });
        m.initialSate(a).receives(U.ev("x")).itTransitionsTo(a);
        m.start();
        for (int i = 0; i < 6; i++) {
          NamedStateEvent<Object> e = U.ev("x", pl == 1 ? "p" + i : null);
          int r0 = u.exc.size(), q0 = q.size(), s0 = ex.submitted;
          Throwable t = U.thrown(() -> m.fire(e));
          boolean decl = (mask >> i & 1) == 1;
          rep.check(t == null, "declined-throws", "thrown " + t, sc);
          rep.check(u.exc.size() == r0 + (decl ? 1 : 0), "declined-report", (u.exc.size() - r0) + " reports for a " + (decl ? "declined" : "accepted") + " event", sc);
          if (u.exc.size() > r0) {
            Object[] r = u.exc.get(r0);
            rep.check(r[0] == e && r[1] == m && r[2] == Thread.currentThread() && r[3] instanceof IllegalStateException, "declined-args", Arrays.toString(r), sc);
          }
          rep.check(q.size() == q0 + (decl ? 0 : 1), "declined-queued", "queue", sc);
          if (!decl) want.add(pl == 1 ? "p" + i : e);
        }
        ex.all();
        rep.check(got.equals(want), "declined-lost", "processed " + got + " want " + want, sc);
        rep.eval(sc);
        if (rep.late()) return;
      }
    }
  }
  static Object pl1(StateEvent<Object> e) { return e.getPayload() == null ? e : e.getPayload(); }
}
