package vh;

import com.webotech.statemachine.*;
import com.webotech.statemachine.api.*;
import java.util.*;

public final class C16 {
  static final class L implements StateMachineListener<Object, Object> {
    final int h; final Object key;
    int begin, end;
    Object[] last;
    L(int h) { this.h = h; key = this; }
    L(int h, Object key) { this.h = h; this.key = key; }
    public void onStateChangeBegin(State<Object, Object> f, StateEvent<Object> e, State<Object, Object> t) { begin++; last = new Object[] {f, e, t}; }
    public void onStateChangeEnd(State<Object, Object> f, StateEvent<Object> e, State<Object, Object> t) { end++; last = new Object[] {f, e, t}; }
    public int hashCode() { return h; }
    public boolean equals(Object o) { return o instanceof L && ((L) o).key == key; }
  }

  static final String[] NAMES = {"f", "t", "e", "", "_NOOP_", "_END_", "_UNINITIALISED_", "_immediate_", "STARTED", "STOPPED", "UNINITIALISED", "complete", "stop", "error"};

  @SuppressWarnings("unchecked")
  public static void seq(Rep rep) {
    rep.family("add, remove, notify");
    Random r = new Random(rep.seed);
    int n = rep.thorough ? 200000 : 25000;
    List<Integer> sizes = new ArrayList<>(List.of(0, 1, 2, 3, 4, 5, 8, 12, 13, 17, 40, 100));
    for (int h : rep.nums) if (h > 0 && h < 2000) { sizes.add(h); sizes.add(h + 1); }
    for (int it = 0; it < n && !rep.late(); it++) {
      int k = it % 20 == 0 ? sizes.get(r.nextInt(sizes.size())) : 1 + r.nextInt(5);
      int hm = r.nextInt(3);
      L[] ls = new L[k];
      for (int i = 0; i < k; i++) ls[i] = new L(hm == 0 ? i : hm == 1 ? 7 : i % 2);
      StringBuilder sc = new StringBuilder(k + " listeners, construct [");
      LinkedHashSet<L> reg = new LinkedHashSet<>();
      StateMachineListener<Object, Object>[] c = new StateMachineListener[r.nextInt(k + 3)];
      if (it % 20 == 0) c = new StateMachineListener[k];
      for (int i = 0; i < c.length; i++) {
        int w = it % 20 == 0 ? i : r.nextInt(k + 1) - 1;
        if (k == 0) w = -1;
        c[i] = w < 0 ? null : ls[w];
        if (w >= 0) reg.add(ls[w]);
        if (i < 20) sc.append(w).append(' ');
      }
      sc.append("] ");
      rep.begin(sc.toString());
      MultiConsumerStateMachineListener<Object, Object> m = new MultiConsumerStateMachineListener<>(c);
      int ops = 1 + r.nextInt(8);
      for (int o = 0; o < ops; o++) {
        if (k > 0 && r.nextInt(2) == 0) {
          int w = r.nextInt(k);
          L l = ls[w];
          if (r.nextInt(2) == 0) {
            boolean x = m.add(l), y = reg.add(l);
            sc.append("add" + w + " ");
            rep.check(x == y, "add", "add returned " + x, sc.toString());
          } else {
            boolean x = m.remove(l), y = reg.remove(l);
            sc.append("remove" + w + " ");
            rep.check(x == y, "remove", "remove returned " + x, sc.toString());
          }
        } else {
          boolean beg = r.nextInt(2) == 0;
          sc.append(beg ? "begin " : "end ");
          int[] b0 = new int[k], e0 = new int[k];
          for (int i = 0; i < k; i++) { b0[i] = ls[i].begin; e0[i] = ls[i].end; ls[i].last = null; }
          Object f = r.nextInt(9) == 0 ? null : U.st(NAMES[r.nextInt(NAMES.length)]), t = r.nextInt(4) == 0 && f != null ? f : U.st(NAMES[r.nextInt(NAMES.length)]), e = U.ev(NAMES[r.nextInt(NAMES.length)]);
          if (beg) m.onStateChangeBegin((State<Object, Object>) f, (StateEvent<Object>) e, (State<Object, Object>) t);
          else m.onStateChangeEnd((State<Object, Object>) f, (StateEvent<Object>) e, (State<Object, Object>) t);
          for (int i = 0; i < k; i++) {
            int want = reg.contains(ls[i]) ? 1 : 0;
            boolean ok = ls[i].begin - b0[i] == (beg ? want : 0) && ls[i].end - e0[i] == (beg ? 0 : want);
            rep.check(ok, "notify", "listener " + i + " (registered=" + (want == 1) + ") was told begin " + (ls[i].begin - b0[i]) + " end " + (ls[i].end - e0[i]) + " times", sc.toString());
            if (want == 1 && ls[i].last != null) rep.check(ls[i].last[0] == f && ls[i].last[1] == e && ls[i].last[2] == t, "notify-args", "other arguments", sc.toString());
          }
        }
      }
      rep.eval(sc.toString());
    }
    Throwable t = U.thrown(() -> new MultiConsumerStateMachineListener<Object, Object>());
    rep.check(t == null, "empty", "constructing without listeners threw " + t, "no listeners");
  }

  static final class Race implements Sched.Scn {
    final int kind;
    MultiConsumerStateMachineListener<Object, Object> m;
    L a = new L(1), b = new L(1);
    int addT, remT;
    boolean pre;
    Race(int k) { kind = k; }
    void add() { if (m.add(a)) addT++; }
    void rem() { if (m.remove(a)) remT++; }
    public void body() {
      pre = kind == 1 || kind == 3;
      m = pre ? new MultiConsumerStateMachineListener<>(b, a) : new MultiConsumerStateMachineListener<>(b);
      if (kind == 0) { Sched.spawnT(this::add); Sched.spawnT(this::add); add(); }
      else if (kind == 1) { Sched.spawnT(this::rem); Sched.spawnT(this::rem); rem(); }
      else if (kind == 2) { Sched.spawnT(this::add); Sched.spawnT(this::rem); add(); rem(); }
      else { Sched.spawnT(this::add); rem(); }
    }
    public String check(Sched s) {
      if (s.stuck != null) return s.stuck;
      if (s.uncaught != null) return "" + s.uncaught;
      int reg = (pre ? 1 : 0) + addT - remT;
      if (reg < 0 || reg > 1) return addT + " adds and " + remT + " removes returned true";
      m.onStateChangeBegin(null, null, null);
      if (a.begin != reg) return "registered " + reg + " but notified " + a.begin + " times";
      if (b.begin != 1) return "another listener was notified " + b.begin + " times";
      if (kind == 0 && addT != 1) return addT + " adds returned true";
      if (kind == 1 && remT != 1) return remT + " removes returned true";
      return null;
    }
  }

  public static void conc(Rep rep) {
    String[] nm = {"three adds", "three removes", "adds and removes", "add and remove of a registered one"};
    for (int k = 0; k < nm.length; k++) {
      int kk = k;
      rep.family(nm[k]);
      rep.begin(nm[k]);
      for (int b = 1; b <= 3; b++) {
        String x = Sched.explore(rep, nm[k], () -> new Race(kk), b, rep.thorough ? 20000 : 2000);
        if (x != null) { rep.fail("interleaving: " + nm[k], x, nm[k] + " (preemption bound " + b + ")"); break; }
      }
    }
  }
}
