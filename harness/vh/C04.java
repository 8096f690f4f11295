package vh;

import com.webotech.statemachine.*;
import com.webotech.statemachine.api.*;
import com.webotech.statemachine.strategy.*;
import java.util.*;

public final class C04 {
  static String proj(String t) {
    if (t.startsWith("S ")) return t;
    return t.startsWith("AFTER") || t.startsWith("BEFORE") || t.startsWith("FIRED") || t.startsWith("OPEXC") ? t : null;
  }
  public static void seq(Rep rep) {
    routes(rep);
    int n = rep.thorough ? 300000 : 30000;
    World.Gen g = new World.Gen(rep.seed);
    g.pTrans = 50; g.pNoop = 8; g.pEnd = 20; g.pStop = 20; g.lateStart = true; g.pEnds = 8;
    g.actKinds = new int[] {World.FIRE, World.FIRE2, World.STOP, World.THROW_RT};
    World.drive(rep, "routes", g, C04::proj, n);
  }

  /** a recording strategy and listener: every firing takes exactly one route */
  static void routes(Rep rep) {
    rep.family("recorded routes");
    for (int phase = 0; phase < 8; phase++) {
      for (int kind = 0; kind < 5; kind++) {
        for (int thr = 0; thr < 2; thr++) {
          String sc = "phase=" + phase + " event=" + kind + " throwing=" + thr;
          rep.begin(sc);
          List<String> log = new ArrayList<>();
          Object[] seen = new Object[3];
          int th = thr;
          UnexpectedFlowListener<Object, Object> ufl = new UnexpectedFlowListener<Object, Object>() {
            void rec(String w, StateEvent<Object> e, StateMachine<Object, Object> m) { log.add(w); seen[0] = e; seen[1] = m; if (th == 1) throw new World.Boom("r"); }
            public void onExceptionDuringEventProcessing(StateEvent<Object> e, StateMachine<Object, Object> m, Thread t, Exception x) { rec("exc", e, m); }
            public void onEventAfterMachineEnd(StateEvent<Object> e, StateMachine<Object, Object> m) { rec("after", e, m); }
            public void onEventBeforeMachineStart(StateEvent<Object> e, StateMachine<Object, Object> m) { rec("before", e, m); }
          };
          EventProcessingStrategy<Object, Object> st = new EventProcessingStrategy<Object, Object>() {
            public void processEvent(StateEvent<Object> e, GenericStateMachine<Object, Object> m) { log.add("process"); seen[0] = e; seen[1] = m; if (th == 1) throw new World.Boom("r"); }
            public void setStates(Map<State<Object, Object>, Map<StateEvent<Object>, State<Object, Object>>> s) { }
            public int getEventQueueSize() { return 0; }
            public UnexpectedFlowListener<Object, Object> getUnexpectedFlowListener() { return ufl; }
          };
          GenericStateMachine<Object, Object> m = new GenericStateMachine.Builder<Object, Object>().setEventProcessingStrategy(st).build();
          NamedState<Object, Object> a = new NamedState<>("A"), b = new NamedState<>("B");
          m.initialSate(a).receives(new NamedStateEvent<>("x")).itTransitionsTo(b);
          m.when(b).receives(new NamedStateEvent<>("x")).itEnds();
          String want;
          switch (phase) {
            case 0: want = "before"; break;
            case 1: m.start(); want = "process"; break;
            case 2: m.startInState(b); want = "process"; break;
            case 3: m.start(); m.stop(); want = "after"; break;
            case 4: m.startInState(b); m.stop(); m.stop(); want = "after"; break;
            case 5: m.start(); m.updateCurrentState(b); want = "process"; break;
            case 6: m.start(); m.updateCurrentState(m.getEndState()); want = "after"; break;
            default: m.stop(); want = "before";
          }
          NamedStateEvent<Object> e = new NamedStateEvent<>(kind == 0 ? "x" : kind == 1 ? "unknown" : kind == 2 ? "_immediate_" : kind == 3 ? "" : null);
          if (kind == 1) e.setPayload("pl");
          boolean s0 = m.isStarted(), e0 = m.isEnded();
          Object c0 = m.getCurrentState();
          for (int rpt = 1; rpt <= 3; rpt++) {
            Throwable t = null;
            try { m.fire(e); } catch (Throwable x) { t = x; }
            List<String> w = new ArrayList<>();
            for (int i = 0; i < rpt; i++) w.add(want);
            rep.check(log.equals(w), "route", "expected " + w + " but was " + log, sc);
            rep.check(seen[0] == e && seen[1] == m, "route-args", "callback got another event or machine", sc);
            rep.check((t != null) == (thr == 1), "route-throw", "thrown: " + t, sc);
            rep.check(m.isStarted() == s0 && m.isEnded() == e0 && m.getCurrentState() == c0, "fire-changes-state", "state changed by firing", sc);
          }
          rep.eval(sc);
        }
      }
    }
  }
}
