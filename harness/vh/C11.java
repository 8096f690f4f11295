package vh;

import com.webotech.statemachine.*;
import com.webotech.statemachine.api.*;
import java.util.*;

public final class C11 {
  static String proj(String t) {
    return t.startsWith("fire") || t.startsWith("EXC") ? null : t;
  }
  public static void seq(Rep rep) {
    World.Gen g = new World.Gen(rep.seed);
    g.maxOps = 5; g.lateStart = true; g.pStop = 10; g.pEnds = 15; g.pActs = 50;
    g.actKinds = new int[] {World.THROW_RT, World.THROW_CHECKED, World.THROW_ERR, World.STOP, World.FIRE};
    World.drive(rep, "starting", g, C11::proj, rep.thorough ? 300000 : 30000);
    incomplete(rep);
    again(rep);
  }

  static final class Rec {
    final U.Strat st = new U.Strat();
    final GenericStateMachine<Object, Object> m = U.machine(st);
    final List<String> log = new ArrayList<>();
    Rec() {
      m.setStateMachineListener(new StateMachineListener<Object, Object>() {
        public void onStateChangeBegin(State<Object, Object> f, StateEvent<Object> v, State<Object, Object> t) { log.add("begin " + f.getName() + ">" + t.getName() + " " + v.getName() + " " + m.isStarted() + m.isEnded() + " " + name()); }
        public void onStateChangeEnd(State<Object, Object> f, StateEvent<Object> v, State<Object, Object> t) { log.add("end " + f.getName() + ">" + t.getName() + " " + v.getName() + " " + m.isStarted() + m.isEnded() + " " + name()); }
      });
    }
    String name() { return m.getCurrentState() == null ? null : m.getCurrentState().getName(); }
    NamedState<Object, Object> s(String n) {
      NamedState<Object, Object> s = U.st(n);
      s.appendEntryActions((e, x) -> log.add("entry " + n + " " + e.getName() + " " + (x == m) + " " + m.isStarted() + m.isEnded() + " " + name()));
      s.appendExitActions((e, x) -> log.add("exit " + n));
      return s;
    }
  }

  /** one received event without outcome anywhere in the table */
  static void incomplete(Rep rep) {
    rep.family("incomplete tables");
    for (int n = 1; n <= 12; n++) for (int miss = -1; miss < n * 3; miss++) for (int shape = 0; shape < 3; shape++) {
      String sc = n + " states, received event without outcome at " + miss + ", outcomes " + shape;
      rep.begin(sc);
      Rec r = new Rec();
      for (int i = 0; i < n; i++) {
        for (int e = 0; e < 3; e++) {
          NamedState<Object, Object> s = r.s("s" + i);
          if (i == 0 && e == 0) r.m.initialSate(s);
          else if (!(miss >= 0 && (miss == i * 3 + e - 1) && e > 0)) { if (miss >= 0 && miss == i * 3 + e - 1) continue; r.m.when(s); }
          r.m.receives(U.ev("e" + e));
          if (miss == i * 3 + e) { if (e == 2 && i < n - 1) { r.m.receives(U.ev("q")); r.m.itEnds(); } continue; }
          if (shape == 0) r.m.itTransitionsTo(s);
          else if (shape == 1) r.m.itDoesNotTransition();
          else r.m.itEnds();
        }
      }
      boolean inc = r.st.states.values().stream().anyMatch(t -> t.containsValue(null));
      Throwable t = U.thrown(r.m::start);
      if (inc) {
        rep.check(t instanceof IllegalStateException, "incomplete-started", "start gave " + t, sc);
        rep.check(!r.m.isStarted() && !r.m.isEnded() && r.m.getCurrentState() == null && r.log.isEmpty(), "incomplete-effects", "a refused start had effects: " + r.log, sc);
      } else {
        rep.check(t == null, "complete-refused", "start gave " + t, sc);
        List<String> want = List.of("begin _UNINITIALISED_>s0 _immediate_ truefalse s0", "entry s0 _immediate_ true truefalse s0", "end _UNINITIALISED_>s0 _immediate_ truefalse s0");
        rep.check(r.log.equals(want), "start-sequence", "callbacks " + r.log, sc);
      }
      rep.eval(sc);
      if (rep.late()) return;
    }
    Rec r = new Rec();
    Throwable t = U.thrown(r.m::start);
    rep.check(t instanceof IllegalStateException && !r.m.isStarted() && r.log.isEmpty(), "no-initial", "start without initial state gave " + t, "start without initial state");
    rep.eval("start without initial state");
  }

  static void again(Rep rep) {
    rep.family("repeated starts");
    String[] nm = {"start", "startInState(A)", "startInState(B)", "startInState(unknown)", "startInState(END)", "startInState(NOOP)", "stop", "fire", "startInState(equal B)", "startInState(null)"};
    for (int a = 0; a < 10; a++) for (int b = 0; b < 10; b++) for (int c = 0; c < 10; c++) for (int d = 0; d < 10; d++) {
      int[] s = {a, b, c, d};
      String sc = nm[a] + " " + nm[b] + " " + nm[c] + " " + nm[d];
      rep.begin(sc);
      Rec r = new Rec();
      NamedState<Object, Object> A = r.s("A"), B = r.s("B");
      r.m.initialSate(A).receives(U.ev("x")).itTransitionsTo(B);
      r.m.when(B).receives(U.ev("x")).itTransitionsTo(r.s("unknown"));
      boolean started = false, ended = false, open = false;
      for (int o : s) {
        if (o == 6 && !started) { open = true; break; }
        r.log.clear();
        State<Object, Object> c0 = r.m.getCurrentState();
        Throwable t = U.thrown(() -> {
          switch (o) {
            case 0: r.m.start(); break;
            case 1: r.m.startInState(A); break;
            case 2: r.m.startInState(B); break;
            case 3: r.m.startInState(U.st("unknown")); break;
            case 4: r.m.startInState(r.m.getEndState()); break;
            case 5: r.m.startInState(r.m.getNoopState()); break;
            case 6: r.m.stop(); break;
            case 7: r.m.fire(U.ev("x")); break;
            case 8: r.m.startInState(U.st("B")); break;
            default: r.m.startInState(null);
          }
        });
        boolean ok = o == 6 || o == 7 || !started && (o == 0 || o == 1 || o == 2 || o == 8);
        rep.check(ok ? t == null : t instanceof IllegalStateException, ok ? "refused" : "accepted", nm[o] + " gave " + t, sc);
        if (!ok) rep.check(r.log.isEmpty() && r.m.getCurrentState() == c0 && r.m.isStarted() == started, "refused-effects", "refused call had effects", sc);
        if (ok && o == 0) { rep.check(r.log.size() == 3 && r.m.getCurrentState() == A, "start-effects", r.log + "", sc); started = true; }
        if (ok && (o == 1 || o == 2 || o == 8)) { started = true; rep.check(r.log.isEmpty() && r.name().equals(o == 1 ? "A" : "B"), "startInState", r.log + " " + r.name(), sc); }
        if (o == 6) ended = true;
        rep.check(r.m.isStarted() == started && (!started || r.m.isEnded() == ended), "flags", "started=" + r.m.isStarted() + " ended=" + r.m.isEnded(), sc);
      }
      rep.eval(sc);
      if (rep.late()) return;
    }
  }

  static final class Race implements Sched.Scn {
    final int a, b, c;
    Rec r;
    NamedState<Object, Object> A, B;
    int okStart, okIn;
    final List<String> bad = new ArrayList<>();
    Race(int a, int b, int c) { this.a = a; this.b = b; this.c = c; }
    void go(int k) {
      if (k == 2) return;
      try {
        if (k == 0) { r.m.start(); okStart++; } else { r.m.startInState(B); okIn++; }
      } catch (IllegalStateException e) {
        // refused
      } catch (Throwable t) { bad.add("" + t); }
    }
    public void body() {
      r = new Rec();
      A = r.s("A");
      B = r.s("B");
      r.m.initialSate(A).receives(U.ev("x")).itTransitionsTo(B);
      r.m.when(B).receives(U.ev("x")).itTransitionsTo(A);
      Sched.spawnT(() -> go(b));
      if (c != 2) Sched.spawnT(() -> go(c));
      go(a);
    }
    public String check(Sched s) {
      if (s.stuck != null) return s.stuck;
      if (s.uncaught != null) return "" + s.uncaught;
      if (!bad.isEmpty()) return bad.toString();
      if (okStart + okIn != 1) return okStart + " starts and " + okIn + " startInStates succeeded";
      int n = 0;
      for (String l : r.log) if (l.startsWith("entry")) n++;
      if (n != okStart || r.log.size() != 3 * okStart) return "callbacks " + r.log;
      if (r.m.getCurrentState() != (okStart == 1 ? A : B)) return "current state " + r.name();
      if (!r.m.isStarted() || r.m.isEnded()) return "flags";
      return null;
    }
  }

  public static void conc(Rep rep) {
    for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) for (int c = 0; c < 3; c++) {
      String nm = "concurrent starts " + a + b + c;
      rep.family(nm);
      rep.begin(nm);
      int aa = a, bb = b, cc = c;
      for (int p = 1; p <= 2; p++) {
        String x = Sched.explore(rep, nm, () -> new Race(aa, bb, cc), p, rep.thorough ? 20000 : 1200);
        if (x != null) { rep.fail("interleaving", x, nm + " (0 start, 1 startInState; preemption bound " + p + ")"); return; }
      }
    }
  }
}
