package vh;

import com.webotech.statemachine.*;
import com.webotech.statemachine.api.*;
import java.util.*;

public final class C03 {
  static String proj(String t) {
    if (t.startsWith("S ")) return t.replaceAll(" q=.*", "");
    return t.startsWith("stopped") || t.startsWith("AFTER") || t.startsWith("N ") || t.startsWith("U ") || t.startsWith("B ") ? t : null;
  }
  public static void seq(Rep rep) {
    int n = rep.thorough ? 600000 : 60000;
    World.Gen g = new World.Gen(rep.seed);
    g.pTrans = 60; g.pNoop = 8; g.pEnd = 20; g.pStop = 12; g.pEnds = 35;
    g.actKinds = new int[] {World.STOP, World.STOP, World.FIRE, World.FIRE2};
    World.drive(rep, "ending", g, C03::proj, n);
  }

  static final class Race implements Sched.Scn {
    final int kind;
    GenericStateMachine<Object, Object> m;
    final World.Exec ex = new World.Exec();
    boolean sawEnded, undone, flagEarly;
    volatile boolean stopDone;
    String bad;
    Race(int k) { kind = k; }
    void look(String where) {
      boolean sd = stopDone && m.isStarted(), se = sawEnded;
      boolean e = m.isEnded();
      State<Object, Object> c = m.getCurrentState();
      if (m.isStarted()) {
        if (e && c != m.getEndState() && bad == null) bad = where + ": ended but current state is " + (c == null ? null : c.getName());
        if (sd && !e && bad == null) bad = where + ": stopped after being started, yet not ended";
        if (se && !e && bad == null) bad = where + ": no longer ended";
        sawEnded |= e;
      }
    }
    public void body() {
      m = new GenericStateMachine.Builder<Object, Object>().setEventProcessingStrategy(
          com.webotech.statemachine.strategy.EventProcessingStrategyFactory.createDefaultStrategy(
              new com.webotech.statemachine.strategy.EventProcessingStrategyFactory.Config<Object, Object>().withExecutor(ex))).build();
      NamedState<Object, Object> a = new NamedState<>("A"), b = new NamedState<>("B");
      NamedStateEvent<Object> x = new NamedStateEvent<>("x");
      m.initialSate(a).receives(x).itTransitionsTo(b);
      m.when(b).receives(x).itTransitionsTo(a);
      b.appendEntryActions((e, sm) -> Sched.point());
      a.appendExitActions((e, sm) -> Sched.point());
      if (kind == 0) {
        m.start();
        m.fire(x);
        m.fire(x);
        Sched.spawnT(() -> { m.stop(); stopDone = true; look("stopper"); });
        ex.all();
        look("worker");
      } else if (kind == 1 || kind == 2) {
        Sched.spawnT(() -> {
          if (m.isStarted()) { m.stop(); stopDone = true; look("stopper"); }
        });
        Sched.point();
        if (kind == 1) m.start(); else m.startInState(b);
        look("starter");
        if (stopDone) { m.fire(x); ex.all(); look("starter2"); }
      } else if (kind == 3) {
        m.start();
        m.fire(x);
        Sched.spawnT(() -> { m.stop(); stopDone = true; look("stopper"); });
        Sched.spawnT(() -> { for (int i = 0; i < 3; i++) look("observer"); });
        ex.all();
        look("worker");
      } else {
        m.start();
        Sched.spawnT(() -> { m.stop(); stopDone = true; look("stopper"); });
        m.stop();
        look("stopper0");
      }
    }
    public String check(Sched s) {
      if (s.stuck != null) return s.stuck;
      if (s.uncaught != null) return "unexpected " + s.uncaught;
      if (bad != null) return bad;
      look("end");
      if (bad == null && stopDone && !m.isEnded()) bad = "stopped but not ended at the end";
      if (bad == null && m.isStarted() && !m.isEnded() && m.getCurrentState() == m.getEndState()) bad = "in the end state but not ended";
      return bad;
    }
  }

  public static void conc(Rep rep) {
    String[] nm = {"stop during transitions", "stop during start", "stop during startInState", "stop observed by another thread", "two stops"};
    for (int k = 0; k < nm.length; k++) {
      int kk = k;
      rep.family(nm[k]);
      for (int b = 1; b <= (rep.thorough ? 3 : 2); b++) {
        rep.begin(nm[k]);
        String r = Sched.explore(rep, nm[k], () -> new Race(kk), b, rep.thorough ? 60000 : 4000);
        if (r != null) { rep.fail("interleaving: " + nm[k], r, nm[k] + " (preemption bound " + b + ")"); break; }
      }
    }
  }
}
