package vh;

import com.webotech.statemachine.*;
import com.webotech.statemachine.api.*;
import com.webotech.statemachine.strategy.*;
import java.util.*;
import java.util.concurrent.*;

public final class C21 {
  /** a queue that counts offers */
  static final class Q extends ConcurrentLinkedQueue<EventMachinePair<Object, Object>> {
    int offers;
    @Override public boolean offer(EventMachinePair<Object, Object> e) { offers++; return super.offer(e); }
    @Override public boolean add(EventMachinePair<Object, Object> e) { offers++; return super.offer(e); }
  }
  static final class X extends AbstractExecutorService {
    final List<Runnable> tasks = new ArrayList<>();
    public void execute(Runnable r) { tasks.add(r); }
    void drain() { while (!tasks.isEmpty()) tasks.remove(0).run(); }
    public void shutdown() { }
    public List<Runnable> shutdownNow() { return List.of(); }
    boolean down, gone;
    public boolean isShutdown() { return down; }
    public boolean isTerminated() { return gone; }
    public boolean awaitTermination(long a, TimeUnit b) { return true; }
  }

  public static void seq(Rep rep) {
    LogCap.install();
    for (int rd = 0; rd < (rep.thorough ? 21 : 3); rd++)
      for (int mask = 0; mask < 64 && !rep.late(); mask++) for (int kind = 0; kind < 2; kind++) strategy(rep, mask, kind, rd);
    many(rep);
    rep.family("builder");
    for (int mask = 0; mask < 8; mask++) for (int k = 0; k < 6; k++) builder(rep, mask, k);
    rep.family("replacing the listener");
    Random r = new Random(rep.seed);
    for (int i = 0; i < (rep.thorough ? 20000 : 3000) && !rep.late(); i++) replace(rep, r);
  }

  static final String[] NAMES = {"thr %s", "", " ", "t1", "%d", "state-machine", "a-b-0", "\u00e9{}", "x\ty"};

  /** the default queue is unbounded and the default executor has one thread, however much is waiting */
  static void many(Rep rep) {
    rep.family("many waiting");
    int n0 = rep.thorough ? 40_000 : 20_000;
    for (int h : rep.nums) if (h < 60_000 && h + 10 > n0) n0 = h + 10;
    int n = n0;
    String sc = "default queue and executor, " + n + " events waiting";
    rep.begin(sc);
    U.Ufl u = new U.Ufl();
    GenericStateMachine<Object, Object> m = U.machine(EventProcessingStrategyFactory.createDefaultStrategy(U.cfg().withUnexpectedFlowListener(u)));
    NamedState<Object, Object> a = U.st("A");
    Set<Thread> on = ConcurrentHashMap.newKeySet();
    CountDownLatch in = new CountDownLatch(1), go = new CountDownLatch(1);
    a.appendExitActions((e, s) -> {
      if (on.add(Thread.currentThread()) || e.getName().equals("wait")) {
        in.countDown();
        try { go.await(60, TimeUnit.SECONDS); } catch (InterruptedException x) { }
      }
    });
    m.initialSate(a).receives(U.ev("wait")).itTransitionsTo(a);
    m.when(a).receives(U.ev("e")).itTransitionsTo(a);
    m.start();
    m.fire(U.ev("wait"));
    try { in.await(6, TimeUnit.SECONDS); } catch (InterruptedException x) { }
    AppRig.await(() -> m.getEventQueueSize() == 0);
    Thread f = new Thread(() -> { for (int i = 0; i < n && u.exc.isEmpty(); i++) m.fire(U.ev("e")); });
    f.setDaemon(true);
    f.start();
    int last = -1, same = 0;
    for (int w = 0; w < 200 && f.isAlive() && same < 80; w++) {
      try { f.join(100); } catch (InterruptedException x) { }
      int now = m.getEventQueueSize();
      same = now == last ? same + 1 : 0;
      last = now;
    }
    boolean back = !f.isAlive(), slow = !back && same < 80;
    int size = m.getEventQueueSize();
    go.countDown();
    rep.eval(sc);
    rep.check(back || slow, "unbounded", "fire() does not return", sc);
    rep.check(!back || size == n && u.exc.isEmpty(), "unbounded", size + " events waiting, " + u.exc.size() + " reports", sc);
    AppRig.await(() -> m.getEventQueueSize() == 0);
    rep.check(on.size() == 1, "single-thread", "processed on " + on, sc);
  }

  static void strategy(Rep rep, int mask, int kind, int rd) {
    rep.family(kind == 0 ? "default strategy" : "drop-duplicate strategy");
    boolean h = (mask & 1) != 0, x = (mask & 2) != 0, u = (mask & 4) != 0, mq = (mask & 8) != 0, q = (mask & 16) != 0, tn = (mask & 32) != 0;
    List<String> handled = Collections.synchronizedList(new ArrayList<>());
    X ex = new X();
    U.Ufl ufl = new U.Ufl();
    Q queue = new Q();
    String name = NAMES[(rd * 64 + mask) % NAMES.length];
    // what an executor says about itself is none of the strategy's business
    ex.down = (rd + (mask >> 2)) % 3 > 0;
    ex.gone = (rd + (mask >> 2)) % 3 == 1;
    int bound = 1 + rd;
    var c = U.cfg();
    StringBuilder sc = new StringBuilder((kind == 0 ? "default" : "drop-duplicate") + " strategy with");
    // also set twice and in another order
    if (q) { c.withEventQueue(queue); sc.append(" queue"); }
    if (mq) { c.withMaxQueueSize(bound); sc.append(" bound ").append(bound); }
    if (tn) { c.withThreadName(name); sc.append(" thread name ").append(name); }
    if (u) { c.withUnexpectedFlowListener(ufl); sc.append(" flow listener"); }
    if (h) { c.withUnmappedEventHandler((e, m) -> handled.add(e.getName())); sc.append(" unmapped handler"); }
    if (x) { c.withExecutor(ex); sc.append(ex.down ? " executor (shut down)" : " executor"); }
    String s = sc.toString();
    rep.begin(s);
    rep.eval(s);
    EventProcessingStrategy<Object, Object> st = kind == 0 ? EventProcessingStrategyFactory.createDefaultStrategy(c) : EventProcessingStrategyFactory.createDropDuplicateStrategy(c);
    GenericStateMachine<Object, Object> m = U.machine(st);
    NamedState<Object, Object> A = U.st("A"), B = U.st("B");
    List<Thread> on = Collections.synchronizedList(new ArrayList<>());
    CountDownLatch go = new CountDownLatch(1), in = new CountDownLatch(1);
    RuntimeException boom = new RuntimeException("boom");
    A.appendExitActions((e, mm) -> {
      on.add(Thread.currentThread());
      if (e.getName().equals("wait")) { in.countDown(); try { go.await(5, TimeUnit.SECONDS); } catch (InterruptedException z) { } }
    });
    B.appendEntryActions((e, mm) -> { if (e.getName().equals("boom")) throw boom; });
    m.initialSate(A).receives(U.ev("wait")).itTransitionsTo(A);
    m.when(A).receives(U.ev("go")).itTransitionsTo(A);
    m.when(A).receives(U.ev("boom")).itTransitionsTo(B);
    // listener for unexpected flows, also before the start
    LogCap.log.clear();
    m.fire(U.ev("early"));
    rep.check(ufl.before.size() == (u ? 1 : 0), "flow-listener", "early event: listener told " + ufl.before.size() + " times", s);
    rep.check((u ? st.getUnexpectedFlowListener() == ufl : st.getUnexpectedFlowListener() != null), "flow-listener", "the strategy's listener is another one", s);
    m.start();
    int fill = x ? 0 : 1;
    if (!x) {
      m.fire(U.ev("wait"));
      try { if (!in.await(6, TimeUnit.SECONDS)) { rep.fail("executor", "nothing was processed", s); return; } } catch (InterruptedException z) { }
      AppRig.await(() -> st.getEventQueueSize() == 0);
    }
    // unmapped, bound and queue
    int n = bound + 70;
    int want = mq ? bound : n;
    int offers0 = queue.offers;
    for (int i = 0; i < n; i++) m.fire(U.ev(i == 0 ? "nope" : "u" + i));
    rep.check(st.getEventQueueSize() == want && m.getEventQueueSize() == want, "bound", st.getEventQueueSize() + " events queued instead of " + want, s);
    if (q) rep.check(queue.size() == want && queue.offers - offers0 == want, "queue", "the queue that was set has " + queue.size() + " events", s);
    rep.check(ufl.exc.size() == (u ? n - want : 0), "flow-listener", "rejected events: listener told " + ufl.exc.size(), s);
    if (x) rep.check(ex.tasks.size() >= 1, "executor", "the executor was not used", s);
    go.countDown();
    if (x) ex.drain();
    if (!AppRig.await(() -> st.getEventQueueSize() == 0)) { rep.fail("executor", "events are not processed", s); return; }
    ufl.exc.clear();
    m.fire(U.ev("go"));
    if (x) ex.drain(); else AppRig.await(() -> on.size() == 2);
    rep.check(on.size() == (x ? 1 : 2), "executor", "processed " + on.size(), s);
    rep.check(handled.size() == (h ? want : 0), "handler", "the unmapped-event handler was called " + handled.size() + " times for " + want + " events", s);
    rep.check(m.getCurrentState() == A && !m.isEnded(), "default-handler", "the state is " + m.getCurrentState(), s);
    for (Thread t : on) {
      if (x) rep.check(t == Thread.currentThread(), "executor", "processed on " + t.getName(), s);
      else {
        rep.check(t == on.get(0), "single-thread", "processed on two threads", s);
        rep.check(t.isDaemon(), "daemon", "not a daemon", s);
        if (tn) rep.check(C20.number(name, t.getName()) >= 0, "thread-name", "thread " + t.getName(), s);
        else rep.check(C20.number("state-machine", t.getName()) >= 0, "thread-name", "thread " + t.getName(), s);
      }
    }
    int msgs = LogCap.log.size();
    m.fire(U.ev("boom"));
    if (x) ex.drain();
    if (u) {
      AppRig.await(() -> ufl.exc.size() > 0);
      rep.check(ufl.exc.size() == 1 && ufl.exc.get(0)[3] == boom, "flow-listener", "exception: listener told " + ufl.exc.size(), s);
    } else {
      // the default only logs; the machine goes on
      if (!AppRig.await(() -> LogCap.log.size() > msgs)) rep.fail("default-flow-listener", "nothing was logged for a failing event", s);
    }
    m.fire(U.ev("v"));
    if (x) ex.drain();
    if (!AppRig.await(() -> st.getEventQueueSize() == 0 && (!h || handled.size() == want + 1))) rep.fail("default-flow-listener", "events are no longer processed", s);
    m.stop();
    m.fire(U.ev("late"));
    rep.check(ufl.after.size() == (u ? 1 : 0), "flow-listener", "late event: listener told " + ufl.after.size(), s);
  }

  static void builder(Rep rep, int mask, int k) {
    Object ctx = new Object();
    List<String> log = new ArrayList<>();
    StateMachineListener<Object, Object> l = lis(log, "l");
    U.Strat s = new U.Strat();
    var b = new GenericStateMachine.Builder<Object, Object>();
    boolean c = (mask & 1) != 0, li = (mask & 2) != 0, st = (mask & 4) != 0;
    String sc = "builder with" + (c ? " context" : "") + (li ? " listener" : "") + (st ? " strategy" : "") + " order " + k;
    int[][] perm = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
    for (int w : perm[k]) {
      if (w == 0 && c) b.setContext(ctx);
      if (w == 1 && li) b.setStateMachineListener(l);
      if (w == 2 && st) b.setEventProcessingStrategy(s);
    }
    rep.begin(sc);
    rep.eval(sc);
    for (int i = 0; i < k % 3; i++) b.build();       // one may build others before
    GenericStateMachine<Object, Object> m = b.build();
    rep.check(m.getContext() == (c ? ctx : null), "context", "context " + m.getContext(), sc);
    rep.check(!m.isStarted() && !m.isEnded() && m.getCurrentState() == null, "fresh", "started=" + m.isStarted() + " ended=" + m.isEnded() + " state=" + m.getCurrentState(), sc);
    NamedState<Object, Object> A = U.st("A"), B = U.st("B");
    m.initialSate(A).receives(U.ev("e")).itTransitionsTo(B);
    m.when(B).receives(U.ev("f")).itTransitionsTo(A);
    if (st) {
      rep.check(s.sets >= 1 && s.states != null, "table", "the strategy was given no table", sc);
      rep.check(s.states != null && s.states.containsKey(A) && s.states.get(A).get(U.ev("e")) == B, "table", "the strategy has another table", sc);
      rep.check(m.getEventQueueSize() == 7, "strategy", "queue size " + m.getEventQueueSize(), sc);
      m.fire(U.ev("early"));
      rep.check(s.ufl.before.size() == 1, "strategy", "another flow listener", sc);
    }
    m.start();
    rep.check(log.size() == (li ? 2 : 0), "listener", "listener told " + log, sc);
    if (st) {
      StateEvent<Object> e = U.ev("e");
      m.fire(e);
      rep.check(s.events.size() == 1 && s.events.get(0)[0] == e && s.events.get(0)[1] == m, "strategy", "the strategy got " + s.events.size() + " events", sc);
    } else {
      m.fire(U.ev("e"));
      rep.check(AppRig.await(() -> m.getCurrentState() == B), "default-strategy", "the event was not processed, state " + m.getCurrentState(), sc);
    }
  }

  static StateMachineListener<Object, Object> lis(List<String> log, String n) {
    return new StateMachineListener<>() {
      public void onStateChangeBegin(State<Object, Object> f, StateEvent<Object> e, State<Object, Object> t) { log.add(n + "b"); }
      public void onStateChangeEnd(State<Object, Object> f, StateEvent<Object> e, State<Object, Object> t) { log.add(n + "e"); }
    };
  }

  static void replace(Rep rep, Random r) {
    X ex = new X();
    List<String> log = new ArrayList<>(), want = new ArrayList<>();
    String cur = r.nextBoolean() ? "0" : null;
    var b = new GenericStateMachine.Builder<Object, Object>().setEventProcessingStrategy(EventProcessingStrategyFactory.createDefaultStrategy(U.cfg().withExecutor(ex)));
    if (cur != null) b.setStateMachineListener(lis(log, cur));
    var m = b.build();
    NamedState<Object, Object> A = U.st("A");
    String[] inAct = {null};
    A.appendEntryActions((e, mm) -> { if (inAct[0] != null) mm.setStateMachineListener(inAct[0].isEmpty() ? null : lis(log, inAct[0])); });
    m.initialSate(A).receives(U.ev("e")).itTransitionsTo(A);
    m.when(A).receives(U.ev("n")).itDoesNotTransition();
    StringBuilder sc = new StringBuilder("listener " + cur + ": ");
    boolean started = false;
    for (int i = 0, n = 2 + r.nextInt(6); i < n; i++) {
      inAct[0] = null;
      int o = r.nextInt(4);
      if (o == 0) {
        cur = r.nextInt(3) == 0 ? null : "" + (i + 1);
        sc.append("set " + cur + " ");
        m.setStateMachineListener(cur == null ? null : lis(log, cur));
        continue;
      }
      if (started && o == 1) {
        sc.append("no-op ");
        m.fire(U.ev("n"));
        ex.drain();
        if (cur != null) { want.add(cur + "b"); want.add(cur + "e"); }
        continue;
      }
      String nx = cur;
      if (o == 3) { nx = r.nextInt(3) == 0 ? null : "in" + i; inAct[0] = nx == null ? "" : nx; sc.append("(set " + nx + " in the entry action) "); }
      sc.append(started ? "transition " : "start ");
      if (cur != null) want.add(cur + "b");
      if (started) { m.fire(U.ev("e")); ex.drain(); } else { m.start(); started = true; }
      cur = nx;
      if (cur != null) want.add(cur + "e");
    }
    rep.eval(sc.toString());
    rep.check(log.equals(want), "replace", "told " + log + " instead of " + want, sc.toString());
  }
}
