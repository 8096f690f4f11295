package vh;

import com.webotech.statemachine.*;
import com.webotech.statemachine.api.*;
import com.webotech.statemachine.strategy.*;
import java.util.*;
import java.util.concurrent.*;

/**
 * A scripted machine run on the real classes, and the same run on a reference interpreter written from the property
 * statements.  Both give a list of trace items; a check compares the items its property is about.
 */
public final class World {
  static final int NONE = -1, NOOP = -2, END = -3;
  static final int THROW_RT = 0, THROW_CHECKED = 1, THROW_ERR = 2, FIRE = 3, STOP = 4, MUTATE = 5, FIRE2 = 6;
  static final int O_FIRE = 0, O_RUN = 1, O_STOP = 2, O_START = 3, O_START_IN = 4, O_REFIRE = 5, O_RUN1 = 6;

  /** a scenario */
  static final class P {
    int nS, nE;               // states 0..nS-1 configured; targets may also be nS (never configured)
    int[][] map;
    boolean[] ends;
    boolean listener = true, custom, dropDup;
    int max = -1;
    String[] sn, en;
    List<int[]> ops = new ArrayList<>();
    TreeMap<Integer, int[]> acts = new TreeMap<>();

    public String toString() {
      StringBuilder b = new StringBuilder();
      b.append("states=").append(Arrays.toString(sn)).append(" events=").append(Arrays.toString(en)).append(" map=");
      for (int i = 0; i < nS; i++) b.append(ends[i] ? "ends" : Arrays.toString(map[i]));
      b.append(listener ? "" : " nolistener").append(custom ? " customStates" : "").append(max > 0 ? " max=" + max : "").append(dropDup ? " dropDup" : "");
      b.append(" ops=");
      for (int[] o : ops) b.append(Arrays.toString(o));
      b.append(" acts=");
      for (var e : acts.entrySet()) b.append(e.getKey()).append(Arrays.toString(e.getValue()));
      return b.toString();
    }
  }

  static final class Exec extends AbstractExecutorService {
    final ArrayDeque<Runnable> q = new ArrayDeque<>();
    final List<Throwable> escaped = new ArrayList<>();
    boolean busy;
    java.util.function.Consumer<Throwable> onEscape;
    int submitted;
    public void execute(Runnable r) { q.add(r); submitted++; }
    boolean one() {
      Runnable r = q.poll();
      if (r == null) return false;
      busy = true;
      try { r.run(); } catch (Throwable t) { if (onEscape != null) onEscape.accept(t); else escaped.add(t); } finally { busy = false; }
      return true;
    }
    void all() { while (one()) { } }
    public void shutdown() { }
    public List<Runnable> shutdownNow() { return List.of(); }
    public boolean isShutdown() { return false; }
    public boolean isTerminated() { return false; }
    public boolean awaitTermination(long a, TimeUnit b) { return true; }
  }

  static final class Boom extends RuntimeException { Boom(String m) { super(m); } }
  static final class Checked extends Exception { Checked(String m) { super(m); } }
  static final class Err extends Error { Err(String m) { super(m); } }

  @SuppressWarnings("unchecked")
  /** exceptions of several classes */
  static RuntimeException problem(int n) {
    switch (n % 7) {
      case 1: return new IllegalStateException("b" + n);
      case 2: return new java.util.concurrent.RejectedExecutionException("b" + n);
      case 3: return new NullPointerException();
      case 4: return new IllegalArgumentException("b" + n, new InterruptedException());
      case 5: return new java.util.ConcurrentModificationException();
      default: return new Boom("b" + n);
    }
  }

  static <E extends Throwable> void sneaky(Throwable t) throws E { throw (E) t; }

  /** a State that is not a NamedState */
  static final class Custom implements State<Object, Object> {
    final String name;
    final List<StateAction<Object, Object>> en = new ArrayList<>(), ex = new ArrayList<>();
    Custom(String n) { name = n; }
    public void onEntry(StateEvent<Object> e, StateMachine<Object, Object> m) { for (var a : en) a.execute(e, m); }
    public void onExit(StateEvent<Object> e, StateMachine<Object, Object> m) { for (var a : ex) a.execute(e, m); }
    @SafeVarargs public final void appendEntryActions(StateAction<Object, Object>... a) { en.addAll(Arrays.asList(a)); }
    @SafeVarargs public final void appendExitActions(StateAction<Object, Object>... a) { ex.addAll(Arrays.asList(a)); }
    public String getName() { return name; }
    public boolean equals(Object o) { return o instanceof Custom && ((Custom) o).name.equals(name); }
    public int hashCode() { return name.hashCode() & 3; }
  }

  // ---------------------------------------------------------------- real run
  static final class Real {
    final P p;
    final List<String> tr = new ArrayList<>();
    final Exec ex = new Exec();
    GenericStateMachine<Object, Object> m;
    State<Object, Object>[] st;
    final List<StateEvent<Object>> fired = new ArrayList<>();
    final IdentityHashMap<Object, Integer> ids = new IdentityHashMap<>();
    int cb;
    boolean stopped, off;
    int muts;
    final Object ctx = new Object();
    final List<Object> offered = new ArrayList<>();

    Real(P p) { this.p = p; }

    String ev(StateEvent<Object> e) {
      if (e == null) return "null";
      Object pl = e.getPayload();
      if (pl != null) return q(e.getName()) + "[" + pl + "]";
      Integer i = ids.get(e);
      return q(e.getName()) + (i == null ? "[?]" : "[#" + i + "]");
    }

    String nm(State<Object, Object> s) { return s == null ? "null" : q(s.getName()); }

    void item(String kind, String body, StateEvent<Object> e, StateMachine<Object, Object> sm) {
      tr.add(kind + " " + body + " " + ev(e) + (sm == m ? "" : " WRONG-MACHINE") + " cur=" + nm(m.getCurrentState()));
      act(e, sm);
    }

    void act(StateEvent<Object> e, StateMachine<Object, Object> sm) {
      int n = cb++;
      int[] a = off ? null : p.acts.get(n);
      if (a == null) return;
      switch (a[0]) {
        case THROW_RT: { var x = problem(n); ids.put(x, 100000 + n); throw x; }
        case THROW_CHECKED: { var x = new Checked("c" + n); ids.put(x, 100000 + n); World.<RuntimeException>sneaky(x); break; }
        case THROW_ERR: { var x = new Err("e" + n); ids.put(x, 100000 + n); throw x; }
        case FIRE: fire(a[1], a[2] != 0); break;
        case FIRE2: fire(a[1], a[2] != 0); fire(a[1], a[2] != 0); break;
        case STOP: tr.add("STOP"); off = true; m.stop(); tr.add("stopped ended=" + m.isEnded() + " cur=" + nm(m.getCurrentState())); break;
        case MUTATE: for (var f : fired) if (f.getPayload() != null) f.setPayload("mut" + n); muts++; break;
        default:
      }
    }

    StateEvent<Object> mk(int e, boolean payload) {
      NamedStateEvent<Object> x = new NamedStateEvent<>(new String(p.en[e]));
      int id = fired.size();
      ids.put(x, id);
      if (payload) x.setPayload("p" + id);
      fired.add(x);
      return x;
    }

    void fire(int e, boolean payload) {
      StateEvent<Object> x = mk(e, payload);
      Object pl = x.getPayload();
      int mu = muts;
      tr.add("fire " + ev(x));
      m.fire(x);
      if (x.getPayload() != pl && mu == muts || !p.en[e].equals(x.getName())) tr.add("FIRED-EVENT-CHANGED");
    }

    @SuppressWarnings("unchecked")
    void run() {
      EventProcessingStrategyFactory.Config<Object, Object> c = new EventProcessingStrategyFactory.Config<Object, Object>()
          .withExecutor(ex).withMaxQueueSize(p.max)
          .withUnmappedEventHandler((e, sm) -> item("U", "unmapped", e, sm))
          .withEventQueue(new ConcurrentLinkedQueue<EventMachinePair<Object, Object>>() {
            @Override public boolean offer(EventMachinePair<Object, Object> x) { offered.add(x); return super.offer(x); }
            @Override public boolean add(EventMachinePair<Object, Object> x) { offered.add(x); return super.offer(x); }
          })
          .withUnexpectedFlowListener(new UnexpectedFlowListener<Object, Object>() {
            public void onExceptionDuringEventProcessing(StateEvent<Object> e, StateMachine<Object, Object> sm, Thread t, Exception x) {
              Integer i = ids.get(x);
              item("EXC", (t == Thread.currentThread() ? "" : "WRONG-THREAD ") + (i == null ? x.getClass().getSimpleName() : "x" + i), e, sm);
            }
            public void onEventAfterMachineEnd(StateEvent<Object> e, StateMachine<Object, Object> sm) { item("AFTER", "after", e, sm); }
            public void onEventBeforeMachineStart(StateEvent<Object> e, StateMachine<Object, Object> sm) { item("BEFORE", "before", e, sm); }
          });
      m = new GenericStateMachine.Builder<Object, Object>().setContext(ctx)
          .setEventProcessingStrategy(p.dropDup ? EventProcessingStrategyFactory.createDropDuplicateStrategy(c)
              : EventProcessingStrategyFactory.createDefaultStrategy(c)).build();
      ex.onEscape = t -> { Integer i = ids.get(t); tr.add("ESC " + (i == null ? t.getClass().getSimpleName() : "x" + i)); };
      st = new State[p.nS + 1];
      for (int i = 0; i <= p.nS; i++) {
        st[i] = p.custom ? new Custom(p.sn[i]) : new NamedState<>(p.sn[i]);
        String n = q(p.sn[i]);
        st[i].appendEntryActions((e, sm) -> item("N", "entry " + n, e, sm));
        st[i].appendExitActions((e, sm) -> item("X", "exit " + n, e, sm));
      }
      configure(m, p, st);
      if (p.listener) {
        m.setStateMachineListener(new StateMachineListener<Object, Object>() {
          public void onStateChangeBegin(State<Object, Object> f, StateEvent<Object> e, State<Object, Object> t) { item("B", "begin " + nm(f) + ">" + nm(t), e, m); }
          public void onStateChangeEnd(State<Object, Object> f, StateEvent<Object> e, State<Object, Object> t) { item("E", "end " + nm(f) + ">" + nm(t), e, m); }
        });
      }
      for (int[] o : p.ops) {
        try {
          switch (o[0]) {
            case O_FIRE: fire(o[1], o[2] != 0); break;
            case O_REFIRE: if (!fired.isEmpty()) { StateEvent<Object> x = fired.get(o[1] % fired.size()); tr.add("refire " + ev(x)); m.fire(x); } break;
            case O_RUN: ex.all(); break;
            case O_RUN1: ex.one(); break;
            case O_STOP: off = true; m.stop(); break;
            case O_START: m.start(); break;
            case O_START_IN: m.startInState(o[1] >= 0 ? st[o[1]] : o[1] == END ? m.getEndState() : m.getNoopState()); break;
            default:
          }
        } catch (Throwable t) {
          Integer i = ids.get(t);
          tr.add("OPEXC " + (i == null ? t.getClass().getSimpleName() : "x" + i));
        }
        tr.add("S started=" + m.isStarted() + " ended=" + m.isEnded() + " cur=" + nm(m.getCurrentState()) + " q=" + m.getEventQueueSize());
      }
    }
  }

  static void configure(StateMachine<Object, Object> m, P p, State<Object, Object>[] st) {
    m.initialSate(st[0]);
    boolean marked = true;
    for (int i = 0; i < p.nS; i++) {
      if (p.ends[i]) {
        if (i > 0) m.when(st[i]);
        m.itEnds();
        continue;
      }
      boolean any = false;
      for (int e = 0; e < p.nE; e++) {
        int t = p.map[i][e];
        if (t == NONE) continue;
        if (!(i == 0 && !any)) m.when(st[i]);
        any = true;
        m.receives(new NamedStateEvent<>(new String(p.en[e])));
        if (t == NOOP) m.itDoesNotTransition();
        else if (t == END) m.itEnds();
        else m.itTransitionsTo(st[t]);
      }
    }
  }

  // ---------------------------------------------------------------- reference
  static final class Ref {
    final P p;
    final List<String> tr = new ArrayList<>();
    boolean started, ended, off, odd;
    int cur = -9;     // -9: none
    int cb;
    int inflight = -1;
    static final class Pair { int e; int id; String pl; Pair(int e, int id, String pl) { this.e = e; this.id = id; this.pl = pl; } }
    final ArrayDeque<Pair> q = new ArrayDeque<>();
    int tasks;
    final List<Integer> fe = new ArrayList<>();
    final List<String> fp = new ArrayList<>();

    Ref(P p) { this.p = p; }

    static final class X extends RuntimeException {
      final int id; final boolean error; final String cls;
      X(int id, boolean error, String cls) { super(null, null, false, false); this.id = id; this.error = error; this.cls = cls; }
      String s() { return cls != null ? cls : "x" + id; }
    }

    String ev(Pair x) { return x == null ? "_immediate_[?]" : q(p.en[x.e]) + "[" + (x.pl != null ? x.pl : "#" + x.id) + "]"; }
    String nm(int s) { return s == -9 ? "null" : s == END ? "_END_" : s == NOOP ? "_NOOP_" : s == -4 ? "_UNINITIALISED_" : q(p.sn[s]); }

    void item(String kind, String body, Pair e) {
      tr.add(kind + " " + body + " " + ev(e) + " cur=" + nm(cur));
      act();
    }

    void act() {
      int n = cb++;
      int[] a = off ? null : p.acts.get(n);
      if (a == null) return;
      switch (a[0]) {
        case THROW_RT: case THROW_CHECKED: throw new X(100000 + n, false, null);
        case THROW_ERR: throw new X(100000 + n, true, null);
        case FIRE: fire(a[1], a[2] != 0); break;
        case FIRE2: fire(a[1], a[2] != 0); fire(a[1], a[2] != 0); break;
        case STOP: odd |= !started; tr.add("STOP"); off = true; ended = true; cur = END; tr.add("stopped ended=true cur=_END_"); break;
        case MUTATE: for (int i = 0; i < fp.size(); i++) if (fp.get(i) != null) fp.set(i, "mut" + n); break;
        default:
      }
    }

    void fire(int e, boolean payload) {
      int id = fe.size();
      fe.add(e);
      fp.add(payload ? "p" + id : null);
      Pair x = new Pair(e, id, fp.get(id));
      tr.add("fire " + ev(x));
      fire(x);
    }

    void fire(Pair x) {
      if (!started) { item("BEFORE", "before", x); return; }
      if (ended) { item("AFTER", "after", x); return; }
      if (p.dropDup) for (Pair y : q) if (p.en[y.e].equals(p.en[x.e])) return;
      if (p.max > 0 && q.size() >= p.max) { item("EXC", "IllegalStateException", x); return; }
      q.add(x);
      tasks++;
    }

    void task() {
      tasks--;
      try {
        while (!q.isEmpty()) {
          Pair x = q.poll();
          if (ended) continue;
          inflight = x.id;
          try { process(x); }
          catch (X t) { if (t.error) throw t; item("EXC", t.s(), x); }
          finally { inflight = -1; }
        }
      } catch (X t) { tr.add("ESC " + t.s()); }
    }

    void process(Pair x) {
      int to = cur >= p.nS ? NONE : p.ends[cur] ? NONE : NONE;
      if (cur >= 0 && cur < p.nS && !p.ends[cur]) to = p.map[cur][x.e];
      if (to == NONE) { item("U", "unmapped", x); return; }
      if (to == NOOP) {
        int f = cur;
        if (p.listener) { item("B", "begin " + nm(f) + ">_NOOP_", x); if (off && ended) return; item("E", "end " + nm(f) + ">_NOOP_", x); }
        return;
      }
      int from = cur;
      if (p.listener) item("B", "begin " + nm(from) + ">" + nm(to), x);
      if (off && ended) return;
      item("X", "exit " + nm(from), x);
      if (off && ended) return;
      cur = to;
      if (to == END) ended = true;
      else {
        item("N", "entry " + nm(to), x);
        if (off && ended) return;
      }
      if (p.listener) item("E", "end " + nm(from) + ">" + nm(to), x);
      if (off && ended) return;
      if (to != END && (to >= p.nS || p.ends[to])) { ended = true; cur = END; }
    }

    void run() {
      for (int[] o : p.ops) {
        try {
          switch (o[0]) {
            case O_FIRE: fire(o[1], o[2] != 0); break;
            case O_REFIRE: if (!fe.isEmpty()) { int i = o[1] % fe.size(); Pair x = new Pair(fe.get(i), i, fp.get(i)); tr.add("refire " + ev(x)); fire(x); } break;
            case O_RUN: while (tasks > 0) task(); break;
            case O_RUN1: if (tasks > 0) task(); break;
            case O_STOP: off = true; ended = true; cur = END; break;
            case O_START:
              if (started) throw new X(0, false, "IllegalStateException");
              started = true;
              cur = 0;
              if (p.listener) { item("B", "begin _UNINITIALISED_>" + nm(0), null); if (off && ended) break; }
              item("N", "entry " + nm(0), null);
              if (off && ended) break;
              if (p.listener) { item("E", "end _UNINITIALISED_>" + nm(0), null); if (off && ended) break; }
              if (p.ends[0]) { ended = true; cur = END; }
              break;
            case O_START_IN:
              if (o[1] < 0 || o[1] >= p.nS || started) throw new X(0, false, "IllegalStateException");
              started = true;
              cur = o[1];
              break;
            default:
          }
        } catch (X t) {
          tr.add("OPEXC " + t.s());
        }
        tr.add("S started=" + started + " ended=" + ended + " cur=" + nm(cur) + " q=" + q.size());
      }
    }
  }

  // ---------------------------------------------------------------- comparison
  /** a name as one word of the trace */
  static String q(String s) {
    if (s == null) return "null";
    StringBuilder b = new StringBuilder(s.isEmpty() ? "%" : "");
    for (char c : s.toCharArray()) if (c == '_' || c < 128 && Character.isLetterOrDigit(c)) b.append(c); else b.append('%').append(Integer.toHexString(c));
    return b.toString();
  }

  interface Proj { String of(String item); }

  /** items after a stop in the middle of a transition that belong to that transition are not specified */
  static List<String> project(List<String> tr, Proj f) {
    List<String> r = new ArrayList<>();
    int stop = tr.indexOf("STOP");
    String inflight = null;
    if (stop > 0) {
      String prev = null;
      for (int i = stop - 1; i >= 0 && prev == null; i--) if (tr.get(i).contains(" cur=") && !tr.get(i).startsWith("S ")) prev = tr.get(i);
      if (prev != null) {
        String[] w = prev.split(" ");
        for (String x : w) if (x.endsWith("]")) inflight = x;
      }
    }
    boolean afterS = false;
    for (int i = 0; i < tr.size(); i++) {
      String t = tr.get(i);
      if (stop >= 0 && i > stop) {
        if (t.startsWith("S ")) afterS = true;
        String k = t.substring(0, t.indexOf(' ') < 0 ? t.length() : t.indexOf(' '));
        if (inflight != null && !afterS && t.contains(inflight) && (k.equals("B") || k.equals("E") || k.equals("N") || k.equals("X") || k.equals("U") || k.equals("EXC"))) continue;
        if (!afterS && (k.equals("OPEXC") || k.equals("ESC"))) continue;
      }
      String s = f.of(t);
      if (s != null) r.add(s);
    }
    return r;
  }

  /** null, or the first difference */
  static String diff(P p, Proj f) {
    Real a = new Real(p);
    a.run();
    Ref b = new Ref(p);
    b.run();
    List<String> x = project(a.tr, f), y = project(b.tr, f);
    for (int i = 0; i < Math.max(x.size(), y.size()); i++) {
      String g = i < x.size() ? x.get(i) : "(nothing more)", h = i < y.size() ? y.get(i) : "(nothing more)";
      if (!g.equals(h)) return "step " + i + ": expected <" + h + "> but was <" + g + ">; real run: " + tail(a.tr);
    }
    return null;
  }

  static String tail(List<String> l) {
    List<String> t = l.size() > 40 ? l.subList(0, 40) : l;
    return t.toString();
  }

  // ---------------------------------------------------------------- generation
  static final class Gen {
    final Random r;
    int pTrans = 60, pNoop = 10, pEnd = 8, pActs = 40, maxOps = 8, pStop = 6, pPayload = 40, pEnds = 15;
    int[] actKinds = {THROW_RT, THROW_CHECKED, THROW_ERR, FIRE, FIRE2, STOP, MUTATE};
    boolean startIn = true, bounds, dup, lateStart;
    List<String> names = new ArrayList<>();

    Gen(long seed) { r = new Random(seed); }

    P next() {
      P p = new P();
      p.nS = 1 + r.nextInt(4);
      p.nE = 1 + r.nextInt(3);
      p.sn = new String[p.nS + 1];
      p.en = new String[p.nE];
      List<String> pool = new ArrayList<>(List.of("A", "B", "C", "D", "Aa", "BB", "", "a longer state name", "x", "y", "complete"));
      pool.addAll(names);
      pool.removeIf(n -> n.startsWith("_"));
      Collections.shuffle(pool, r);
      Set<String> used = new LinkedHashSet<>(pool);
      Iterator<String> it = used.iterator();
      boolean plain = r.nextInt(3) > 0;
      for (int i = 0; i <= p.nS; i++) p.sn[i] = plain ? "" + (char) ('A' + i) : it.next();
      List<String> ep = new ArrayList<>(List.of("x", "y", "z", "A", "Aa", "BB", ""));
      ep.addAll(names);
      ep.removeIf(n -> n.startsWith("_"));
      Collections.shuffle(ep, r);
      Iterator<String> ie = new LinkedHashSet<>(ep).iterator();
      for (int i = 0; i < p.nE; i++) p.en[i] = plain ? "" + (char) ('x' + i) : ie.next();
      p.map = new int[p.nS][p.nE];
      p.ends = new boolean[p.nS];
      for (int i = 0; i < p.nS; i++) {
        p.ends[i] = r.nextInt(100) < pEnds && (i > 0 || r.nextInt(4) == 0);
        boolean any = false;
        for (int e = 0; e < p.nE; e++) {
          int v = r.nextInt(100);
          int t = v < pTrans ? r.nextInt(100) < 8 ? p.nS : r.nextInt(p.nS) : v < pTrans + pNoop ? NOOP : v < pTrans + pNoop + pEnd ? END : NONE;
          p.map[i][e] = t;
          any |= t != NONE;
        }
        if (!any && !p.ends[i]) p.map[i][0] = i == 0 ? 0 : NOOP;
      }
      p.listener = r.nextInt(8) > 0;
      p.custom = r.nextInt(5) == 0;
      if (bounds) p.max = r.nextInt(3) == 0 ? -r.nextInt(2) : 1 + r.nextInt(4);
      p.dropDup = dup;
      if (lateStart && r.nextInt(3) == 0) p.ops.add(new int[] {O_FIRE, r.nextInt(p.nE), r.nextInt(2)});
      if (startIn && r.nextInt(4) == 0) {
        int s = r.nextInt(p.nS + 2) - 1;
        p.ops.add(new int[] {O_START_IN, s < 0 ? END : s});
        if (r.nextInt(2) == 0) p.ops.add(new int[] {O_START, 0});
      } else p.ops.add(new int[] {O_START, 0});
      int n = 1 + r.nextInt(maxOps);
      for (int i = 0; i < n; i++) {
        int v = r.nextInt(100);
        if (v < pStop) p.ops.add(new int[] {O_STOP, 0});
        else if (v < 30) p.ops.add(new int[] {O_RUN, 0});
        else if (v < 36) p.ops.add(new int[] {O_RUN1, 0});
        else if (v < 42) p.ops.add(new int[] {O_REFIRE, r.nextInt(8)});
        else if (v < 45 && startIn) p.ops.add(r.nextBoolean() ? new int[] {O_START, 0} : new int[] {O_START_IN, r.nextInt(p.nS)});
        else p.ops.add(new int[] {O_FIRE, r.nextInt(p.nE), r.nextInt(100) < pPayload ? 1 : 0});
      }
      p.ops.add(new int[] {O_RUN, 0});
      if (r.nextInt(100) < pActs) {
        int k = 1 + r.nextInt(2);
        for (int i = 0; i < k; i++) p.acts.put(r.nextInt(14), new int[] {actKinds[r.nextInt(actKinds.length)], r.nextInt(p.nE), r.nextInt(2)});
      }
      boolean stop = false;
      for (int[] a : p.acts.values()) stop |= a[0] == STOP;
      if (stop) p.ops.removeIf(o -> o[0] == O_REFIRE);
      return p;
    }
  }

  /** common driver */
  static void drive(Rep rep, String fam, Gen g, Proj f, int runs) {
    rep.family(fam);
    g.names.addAll(rep.names);
    for (int i = 0; i < runs && !rep.late(); i++) {
      P p = g.next();
      if (skip(p)) continue;
      String s = p.toString();
      rep.begin(s);
      String d = diff(p, f);
      rep.eval(s);
      if (d != null) {
        P q = shrink(p, f);
        String dq = diff(q, f);
        rep.fail(fam, dq == null ? d : dq, (dq == null ? p : q).toString());
        return;
      }
    }
  }

  /** scenarios whose outcome the properties leave open */
  static boolean skip(P p) {
    boolean started = false;
    for (int[] o : p.ops) {   // a stop before the start
      if (o[0] == O_START || o[0] == O_START_IN && o[1] >= 0 && o[1] < p.nS) started = true;
      if (o[0] == O_STOP && !started) return true;
    }
    Ref b = new Ref(p);
    b.run();
    if (b.odd) return true;
    for (int[] o : p.ops) if (o[0] == O_START_IN && o[1] >= 0 && o[1] < p.nS && p.ends[o[1]]) return true;
    return false;
  }

  static P copy(P p) {
    P q = new P();
    q.nS = p.nS; q.nE = p.nE; q.map = p.map; q.ends = p.ends; q.listener = p.listener; q.custom = p.custom; q.max = p.max; q.dropDup = p.dropDup;
    q.sn = p.sn; q.en = p.en; q.ops = new ArrayList<>(p.ops); q.acts = new TreeMap<>(p.acts);
    return q;
  }

  static P shrink(P p, Proj f) {
    P best = p;
    boolean ch = true;
    int n = 0;
    while (ch && n < 200) {
      ch = false;
      for (int i = best.ops.size() - 1; i >= 0 && !ch; i--) {
        P q = copy(best);
        q.ops.remove(i);
        n++;
        if (!skip(q) && diff(q, f) != null) { best = q; ch = true; }
      }
      for (Integer k : new ArrayList<>(best.acts.keySet())) {
        if (ch) break;
        P q = copy(best);
        q.acts.remove(k);
        n++;
        if (!skip(q) && diff(q, f) != null) { best = q; ch = true; }
      }
    }
    return best;
  }
}
