package vh;

import com.webotech.statemachine.*;
import com.webotech.statemachine.api.*;
import java.util.*;

/** sequences of configuration calls against a reference table */
public final class C10 {
  static final int INIT = 0, WHEN = 1, RECV = 2, TO = 3, NOT = 4, ENDS = 5;
  static final String[] OP = {"initialSate", "when", "receives", "itTransitionsTo", "itDoesNotTransition", "itEnds"};

  static final class Model {
    boolean init;
    String marked;
    String event;
    boolean hasEvent;
    final Map<String, Map<String, String>> t = new LinkedHashMap<>();

    /** false: must be rejected with IllegalStateException; null: left open by the property */
    Boolean op(int o, String n) {
      switch (o) {
        case INIT:
          if (reserved(n) || init) return false;
          init = true;
          t.put(n, new LinkedHashMap<>());
          marked = n; hasMarked = true;
          hasEvent = false;
          return true;
        case WHEN:
          if (reserved(n) || !init || hasMarked) return false;
          t.putIfAbsent(n, new LinkedHashMap<>());
          marked = n; hasMarked = true;
          return true;
        case RECV:
          if ("_immediate_".equals(n) || !init || !hasMarked) return false;
          event = n;
          hasEvent = true;
          t.get(marked).putIfAbsent(n, null);
          return true;
        case TO: return map(reserved(n) ? null : "S" + n, reserved(n));
        case NOT: return map("NOOP", false);
        default:
          if (!init || !hasMarked) return false;
          if (!hasEvent) {
            if (!t.get(marked).isEmpty()) return false;
            t.get(marked).put("_immediate_", "END");
            hasMarked = false;
            return true;
          }
          return map("END", false);
      }
    }
    boolean hasMarked;

    boolean map(String to, boolean bad) {
      if (bad || !init || !hasMarked || !hasEvent || t.get(marked).get(event) != null) return false;
      t.get(marked).put(event, to);
      hasMarked = false;
      hasEvent = false;
      return true;
    }
  }

  static boolean reserved(String n) { return "_END_".equals(n) || "_NOOP_".equals(n) || "_UNINITIALISED_".equals(n); }

  static String target(GenericStateMachine<Object, Object> m, State<Object, Object> s) {
    if (s == null) return null;
    if (s == m.getEndState()) return "END";
    if (s == m.getNoopState()) return "NOOP";
    return "S" + s.getName();
  }

  static Map<String, Map<String, String>> table(GenericStateMachine<Object, Object> m, U.Strat st) {
    Map<String, Map<String, String>> r = new LinkedHashMap<>();
    for (var e : st.states.entrySet()) {
      if (e.getKey() instanceof NamedState && reserved(e.getKey().getName())) {
        if (!e.getValue().isEmpty()) r.put(e.getKey().getName(), new LinkedHashMap<>(Map.of("reserved state with mappings", "?")));
        continue;
      }
      Map<String, String> x = new LinkedHashMap<>();
      for (var f : e.getValue().entrySet()) {
        if (f.getKey() == null) { x.put("null event", "?"); continue; }
        if (x.put(f.getKey().getName(), target(m, f.getValue())) != null) x.put("twice", "?");
      }
      r.put(e.getKey().getName(), x);
    }
    return r;
  }

  static String norm(Map<String, Map<String, String>> t) {
    TreeMap<String, TreeMap<String, String>> r = new TreeMap<>();
    for (var e : t.entrySet()) {
      TreeMap<String, String> x = new TreeMap<>();
      for (var f : e.getValue().entrySet()) x.put(String.valueOf(f.getKey()), String.valueOf(f.getValue()));
      r.put(String.valueOf(e.getKey()), x);
    }
    return r.toString();
  }

  static boolean runSeq(Rep rep, List<int[]> seq, String[] names) {
    StringBuilder b = new StringBuilder();
    for (int[] o : seq) b.append(OP[o[0]]).append(o[0] == NOT || o[0] == ENDS ? "()" : "(" + names[o[1]] + ")").append(' ');
    String sc = b.toString();
    rep.begin(sc);
    U.Strat st = new U.Strat();
    GenericStateMachine<Object, Object> m = U.machine(st);
    Model md = new Model();
    for (int i = 0; i < seq.size(); i++) {
      int[] o = seq.get(i);
      String n = names[o[1]];
      Throwable t = U.thrown(() -> {
        Object r = null;
        switch (o[0]) {
          case INIT: r = m.initialSate(U.st(new String(n))); break;
          case WHEN: r = m.when(U.st(new String(n))); break;
          case RECV: r = m.receives(U.ev(new String(n))); break;
          case TO: r = m.itTransitionsTo(U.st(new String(n))); break;
          case NOT: r = m.itDoesNotTransition(); break;
          default: r = m.itEnds();
        }
        if (r != m) throw new Error("returned another machine");
      });
      Boolean ok = md.op(o[0], n);
      if (ok && t != null) { rep.fail("rejected", "call " + i + " (" + OP[o[0]] + ") threw " + t, sc); return false; }
      if (!ok && !(t instanceof IllegalStateException)) { rep.fail("accepted", "call " + i + " (" + OP[o[0]] + ") should be rejected, got " + t, sc); return false; }
      String x = norm(table(m, st)), y = norm(md.t);
      if (!x.equals(y)) { rep.fail("table", "after call " + i + " the table is " + x + " expected " + y, sc); return false; }
    }
    rep.eval(sc);
    return true;
  }

  public static void seq(Rep rep) {
    rep.family("all short call sequences");
    String[] names = {"A", "B"};
    int[][] ops = {{INIT, 0}, {INIT, 1}, {WHEN, 0}, {WHEN, 1}, {RECV, 0}, {RECV, 1}, {TO, 0}, {TO, 1}, {NOT, 0}, {ENDS, 0}};
    int max = rep.thorough ? 6 : 5;
    for (int len = 1; len <= max; len++) {
      int total = (int) Math.pow(ops.length, len);
      for (int c = 0; c < total; c++) {
        List<int[]> s = new ArrayList<>();
        int x = c;
        for (int i = 0; i < len; i++) { s.add(ops[x % ops.length]); x /= ops.length; }
        if (len > 2 && s.get(0)[0] != INIT) continue;
        if (!runSeq(rep, s, names)) return;
        if (rep.late()) break;
      }
    }
    rep.family("random call sequences");
    Random r = new Random(rep.seed);
    List<String> pool = new ArrayList<>(List.of("A", "B", "C", "Aa", "BB", "", "x", "_END_", "_NOOP_", "_UNINITIALISED_", "_immediate_", "_end_", "_END", "END", " _END_", "_END_ ", " _NOOP_ ", "_NOOP_x", "x_NOOP_", "_end_ ", "_noop_", "_uninitialised_"));
    for (String s : rep.names) if (s != null && !pool.contains(s)) pool.add(s);
    int n = rep.thorough ? 400000 : 60000;
    for (int i = 0; i < n && !rep.late(); i++) {
      String[] nm = new String[1 + r.nextInt(4)];
      for (int j = 0; j < nm.length; j++) nm[j] = pool.get(r.nextInt(3) > 0 ? r.nextInt(6) : r.nextInt(pool.size()));
      List<int[]> s = new ArrayList<>();
      int len = 2 + r.nextInt(24);
      boolean marked = false, ev = false;
      for (int j = 0; j < len; j++) {
        int k = r.nextInt(100);
        int o = j == 0 && k < 95 ? INIT : k < 80 ? (!marked ? WHEN : !ev ? (k < 8 ? ENDS : RECV) : k < 12 ? RECV : k < 50 ? TO : k < 65 ? NOT : ENDS) : r.nextInt(6);
        s.add(new int[] {o, r.nextInt(nm.length)});
        if (o == INIT || o == WHEN) marked = true;
        if (o == RECV) ev = true;
        if (o >= TO) { marked = false; ev = false; }
      }
      if (!runSeq(rep, s, nm)) return;
    }
    rep.family("null arguments and many states");
    for (int k = 0; k < 40 && !rep.late(); k++) many(rep, 1 + k * 7, k);
    userStates(rep);
  }

  static void many(Rep rep, int n, int salt) {
    String sc = n + " states";
    rep.begin(sc);
    U.Strat st = new U.Strat();
    GenericStateMachine<Object, Object> m = U.machine(st);
    m.initialSate(U.st("s0"));
    Map<String, Map<String, String>> want = new LinkedHashMap<>();
    for (int i = 0; i < n; i++) {
      if (i > 0) m.when(U.st("s" + i));
      want.put("s" + i, new LinkedHashMap<>());
      for (int e = 0; e < 3; e++) {
        if (e > 0) m.when(U.st("s" + i));
        m.receives(U.ev("e" + e));
        if (e == 2) { m.itEnds(); want.get("s" + i).put("e2", "END"); }
        else if (e == 1) { m.itDoesNotTransition(); want.get("s" + i).put("e1", "NOOP"); }
        else { m.itTransitionsTo(U.st("s" + (i + salt) % n)); want.get("s" + i).put("e0", "Ss" + (i + salt) % n); }
      }
    }
    rep.check(norm(table(m, st)).equals(norm(want)), "table-many", "table differs", sc);
    for (int i = 0; i < n; i++) {
      int ii = i;
      m.when(U.st("s" + ii));
      m.receives(U.ev("e0"));
      for (int k = 0; k < 3; k++) {
        int kk = k;
        Throwable t = U.thrown(() -> { if (kk == 0) m.itEnds(); else if (kk == 1) m.itDoesNotTransition(); else m.itTransitionsTo(U.st("s" + ii)); });
        rep.check(t instanceof IllegalStateException, "duplicate-accepted", "a second mapping was accepted", sc);
      }
      m.receives(U.ev("free"));
      m.itTransitionsTo(U.st("t"));
      want.get("s" + i).put("free", "St");
    }
    rep.check(norm(table(m, st)).equals(norm(want)), "table-many", "table differs after rejected calls", sc);
    rep.eval(sc);
  }

  /** states and events of the user's own classes */
  static void userStates(Rep rep) {
    rep.family("user-defined state class");
    for (String n : new String[] {"_END_", "_NOOP_", "_UNINITIALISED_"}) {
      for (int w = 0; w < 3; w++) {
        String sc = "user-defined state named " + n + " at " + w;
        U.Strat st = new U.Strat();
        GenericStateMachine<Object, Object> m = U.machine(st);
        int ww = w;
        if (w > 0) m.initialSate(U.st("A")).receives(U.ev("x"));
        if (w == 1) m.itEnds();
        Throwable t = U.thrown(() -> { if (ww == 0) m.initialSate(new World.Custom(n)); else if (ww == 1) m.when(new World.Custom(n)); else m.itTransitionsTo(new World.Custom(n)); });
        rep.check(t instanceof IllegalStateException, "reserved-accepted", "got " + t, sc);
        rep.eval(sc);
      }
    }
    for (boolean mapped : new boolean[] {false, true}) {
      String sc = "user-defined event named _immediate_" + mapped;
      U.Strat st = new U.Strat();
      GenericStateMachine<Object, Object> m = U.machine(st);
      m.initialSate(U.st("A"));
      if (mapped) { m.receives(U.ev("x")).itTransitionsTo(U.st("A")); m.when(U.st("A")); }
      StateEvent<Object> e = new StateEvent<>() {
        @Override public String getName() { return new String("_immediate_"); }
        @Override public Object getPayload() { return null; }
        @Override public void setPayload(Object p) {}
      };
      Throwable t = U.thrown(() -> m.receives(e));
      rep.check(t instanceof IllegalStateException, "reserved-accepted", "got " + t, sc);
      rep.eval(sc);
    }
  }
}
