package vh;

import com.webotech.statemachine.*;
import com.webotech.statemachine.api.*;
import com.webotech.statemachine.service.LifecycleStateMachineUtil;
import java.util.*;

@SuppressWarnings({"unchecked", "rawtypes"})
public final class C17 {
  static final StateEvent[] EV = {LifecycleStateMachineUtil.evtStart, LifecycleStateMachineUtil.evtComplete, LifecycleStateMachineUtil.evtStop, LifecycleStateMachineUtil.evtError};
  static final String[] EN = {"start", "complete", "stop", "error"};
  static final String[] SN = {"UNINITIALISED", "STARTING", "STARTED", "STOPPING", "STOPPED"};
  // -1 no mapping, 5 ends
  static final int[][] TO = {{1, -1, -1, -1}, {-1, 2, -1, 4}, {-1, -1, 3, 4}, {-1, 4, -1, 4}, {1, -1, 5, -1}};

  public static void seq(Rep rep) {
    rep.family("events and constants");
    for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) {
      rep.check(EV[i].equals(EV[j]) == (i == j), "events", "event " + i + " equals event " + j + ": " + EV[i].equals(EV[j]), EN[i] + " and " + EN[j]);
      rep.check(EV[i].getName().equals(EV[j].getName()) == (i == j), "events", "names of " + i + " and " + j, EN[i] + " and " + EN[j]);
    }
    String[] c = {LifecycleStateMachineUtil.STATE_UNINITIALISED, LifecycleStateMachineUtil.STATE_STARTING, LifecycleStateMachineUtil.STATE_STARTED, LifecycleStateMachineUtil.STATE_STOPPING, LifecycleStateMachineUtil.STATE_STOPPED};
    for (int i = 0; i < 5; i++) rep.check(SN[i].equals(c[i]), "state-name", "constant is " + c[i], SN[i]);
    rep.family("factories");
    Random r = new Random(rep.seed);
    int n = rep.thorough ? 20000 : 3000;
    for (int it = 0; it < n && !rep.late(); it++) factory(rep, r, it);
    rep.family("table");
    table(rep, true, null);
    for (int it = 0; it < n / 10 && !rep.late(); it++) {
      List<String> nm = new ArrayList<>(new LinkedHashSet<>(List.of("A", "b", "", "started", "STARTING", "UNINITIALISED", "STOPPED", "Aa", "BB", "x" + r.nextInt(100), "STARTED", "STOPPING", "s p a c e")));
      Collections.shuffle(nm, r);
      table(rep, false, nm.subList(0, 5));
    }
  }

  static State make(int i, StateAction[] a) {
    switch (i) {
      case 0: return LifecycleStateMachineUtil.newUnitialisedState(a);
      case 1: return LifecycleStateMachineUtil.newStartingState(a);
      case 2: return LifecycleStateMachineUtil.newStartedState(a);
      case 3: return LifecycleStateMachineUtil.newStoppingState(a);
      default: return LifecycleStateMachineUtil.newStoppedState(a);
    }
  }

  static void factory(Rep rep, Random r, int it) {
    int i = it % 5, k = it % 50 < 45 ? r.nextInt(5) : r.nextInt(60);
    int m = 1 + r.nextInt(4);
    List<Integer> ran = new ArrayList<>();
    StateAction[] pool = new StateAction[m];
    for (int j = 0; j < m; j++) { int jj = j; pool[j] = (e, s) -> ran.add(jj); }
    StateAction[] a = new StateAction[k];
    List<Integer> want = new ArrayList<>();
    for (int j = 0; j < k; j++) { int w = r.nextInt(m); a[j] = pool[w]; want.add(w); }
    String sc = SN[i] + " with entry actions " + want;
    rep.begin(sc);
    State s = make(i, a), s2 = make(i, new StateAction[0]);
    rep.check(s != s2, "new-state", "the same state twice", sc);
    rep.check(SN[i].equals(s.getName()) && SN[i].equals(s2.getName()), "factory-name", s.getName() + " " + s2.getName(), sc);
    s.onExit(EV[0], null);
    rep.check(ran.isEmpty(), "exit", "exit ran " + ran, sc);
    s2.onEntry(EV[0], null);
    rep.check(ran.isEmpty(), "shared", "entering another state ran " + ran, sc);
    s.onEntry(EV[0], null);
    rep.check(ran.equals(want), "entry", "entry ran " + ran, sc);
    ran.clear();
    s.onEntry(EV[3], null);
    rep.check(ran.equals(want), "entry-again", "second entry ran " + ran, sc);
    rep.eval(sc);
  }

  static void table(Rep rep, boolean std, List<String> names) {
    for (int from = 0; from < 6; from++) for (int e = 0; e < 6; e++) {
      String[] nm = new String[5];
      State[] s = new State[5];
      for (int i = 0; i < 5; i++) {
        s[i] = std ? make(i, new StateAction[0]) : U.st(names.get(i));
        nm[i] = s[i].getName();
      }
      List<String> unmapped = new ArrayList<>(), log = new ArrayList<>();
      World.Exec ex = new World.Exec();
      var m = (GenericStateMachine) new GenericStateMachine.Builder<Object, Object>().setEventProcessingStrategy(
          com.webotech.statemachine.strategy.EventProcessingStrategyFactory.createDefaultStrategy(U.cfg().withExecutor(ex)
              .withUnmappedEventHandler((x, y) -> unmapped.add(x.getName())))).build();
      m.setStateMachineListener(new StateMachineListener() {
        public void onStateChangeBegin(State a, StateEvent b, State c) { }
        public void onStateChangeEnd(State a, StateEvent b, State c) { log.add(c.getName()); }
      });
      StateEvent ev = e < 4 ? EV[e] : e == 4 ? U.ev("other") : U.ev("_immediate_");
      String sc = (std ? "lifecycle states" : "states " + names) + ", " + (from == 5 ? "started" : "in " + nm[from]) + ", event " + ev.getName();
      rep.begin(sc);
      Throwable t = U.thrown(() -> LifecycleStateMachineUtil.configureAppStateMachine(m, s[0], s[1], s[2], s[3], s[4]));
      if (t != null) { rep.fail("configure", "configuring threw " + t, sc); return; }
      int f = from;
      t = U.thrown(() -> { if (f == 5) m.start(); else m.startInState(s[f]); });
      if (t != null) { rep.fail("start", "starting threw " + t, sc); continue; }
      if (from == 5) rep.check(m.getCurrentState() == s[0] && !m.isEnded(), "initial", "initial state is " + m.getCurrentState(), sc);
      int fr = from == 5 ? 0 : from;
      if (from < 5) rep.check(!m.isEnded() && m.getCurrentState() == s[from], "startInState", "in " + m.getCurrentState(), sc);
      log.clear();
      m.fire(ev);
      ex.all();
      int to = e < 4 ? TO[fr][e] : -1;
      String got = m.isEnded() ? "end" : m.getCurrentState() == null ? "null" : ((State) m.getCurrentState()).getName();
      String want = to < 0 ? nm[fr] : to == 5 ? "end" : nm[to];
      rep.check(got.equals(want), "mapping", "goes to " + got + " instead of " + want, sc);
      rep.check(unmapped.size() == (to < 0 ? 1 : 0) && log.size() == (to < 0 ? 0 : 1), "mapping", "unmapped " + unmapped + ", transitions " + log, sc);
      if (to >= 0 && to < 5) rep.check(m.getCurrentState() == s[to], "state-object", "another state object", sc);
      rep.eval(sc);
    }
  }
}
