package vh;

import java.util.*;
import java.util.concurrent.*;
import java.util.concurrent.locks.LockSupport;
import java.util.function.BooleanSupplier;

/**
 * Cooperative scheduler: the instrumented code calls point() before every shared access; exactly one managed thread
 * runs at a time and the schedule is a list of choices, enumerated depth first with a bound on preemptions.
 */
public final class Sched {
  static final class T {
    final int id; final Thread th; final boolean daemon; volatile boolean done; BooleanSupplier wait; boolean killed;
    T(int id, Thread th, boolean daemon) { this.id = id; this.th = th; this.daemon = daemon; }
  }
  static final class Killed extends ThreadDeath { }

  static volatile Sched cur;
  static final ThreadLocal<T> me = new ThreadLocal<>();

  final List<T> ts = new ArrayList<>();
  volatile T running;
  final List<Integer> choices = new ArrayList<>();   // prescribed, then taken
  final List<Integer> width = new ArrayList<>();
  int pos, preempt, maxPreempt, steps;
  volatile boolean killing;
  volatile String stuck;
  final Map<Object, int[]> mon = new IdentityHashMap<>();  // owner, count
  volatile Throwable uncaught;
  Thread main;

  // ---- hooks called by the instrumented classes
  public static void point() {
    Sched s = cur;
    T t = me.get();
    if (s != null && t != null && !s.inCond) s.yield_(t, false);
  }

  public static void enter(Object o) {
    Sched s = cur;
    T t = me.get();
    if (o == null) throw new NullPointerException();
    if (s == null || t == null) { lockReal(o); return; }
    if (s.inCond) return;
    s.yield_(t, false);
    int[] m = s.mon.get(o);
    if (m != null && m[0] != t.id) {
      t.wait = () -> s.mon.get(o) == null;
      s.yield_(t, true);
      t.wait = null;
    }
    m = s.mon.computeIfAbsent(o, x -> new int[] {t.id, 0});
    m[1]++;
  }

  public static void exit(Object o) {
    Sched s = cur;
    T t = me.get();
    if (s == null || t == null) { unlockReal(o); return; }
    if (s.inCond) return;
    int[] m = s.mon.get(o);
    if (m != null && m[0] == t.id && --m[1] == 0) s.mon.remove(o);
    if (!s.killing) s.yield_(t, false);
  }

  static final Map<Object, java.util.concurrent.locks.ReentrantLock> real = Collections.synchronizedMap(new WeakHashMap<>() );

  // unmanaged threads: one global lock is enough (they are never concurrent with a managed run)
  static final java.util.concurrent.locks.ReentrantLock GLOBAL = new java.util.concurrent.locks.ReentrantLock();
  static void lockReal(Object o) { GLOBAL.lock(); }
  static void unlockReal(Object o) { if (GLOBAL.isHeldByCurrentThread()) GLOBAL.unlock(); }

  public static void await(CountDownLatch l) throws InterruptedException {
    Sched s = cur;
    T t = me.get();
    if (s == null || t == null) { l.await(); return; }
    s.yield_(t, false);
    block(() -> l.getCount() == 0);
  }

  public static boolean await(CountDownLatch l, long n, TimeUnit u) throws InterruptedException {
    Sched s = cur;
    T t = me.get();
    if (s == null || t == null) return l.await(n, u);
    s.yield_(t, false);
    return l.getCount() == 0;
  }

  public static void block(BooleanSupplier b) {
    Sched s = cur;
    T t = me.get();
    if (s.holds(b)) return;
    t.wait = b;
    s.yield_(t, true);
    t.wait = null;
  }

  public static ExecutorService single() { return single(null); }

  public static ExecutorService single(ThreadFactory f) {
    Sched s = cur;
    T t = me.get();
    if (s == null || t == null) return f == null ? Executors.newSingleThreadExecutor() : Executors.newSingleThreadExecutor(f);
    return s.new Exec();
  }

  /** single worker thread, managed */
  public final class Exec extends AbstractExecutorService {
    final ArrayDeque<Runnable> q = new ArrayDeque<>();
    boolean started;
    public void execute(Runnable r) {
      q.add(r);
      if (!started) {
        started = true;
        spawn(() -> {
          while (true) {
            block(() -> !q.isEmpty());
            Runnable x = q.poll();
            try { x.run(); } catch (Killed k) { throw k; } catch (Throwable e) { uncaught = e; }
          }
        }, true);
      }
    }
    public void shutdown() { }
    public List<Runnable> shutdownNow() { return List.of(); }
    public boolean isShutdown() { return false; }
    public boolean isTerminated() { return false; }
    public boolean awaitTermination(long a, TimeUnit b) { return true; }
  }

  public T spawn(Runnable r, boolean daemon) {
    int id = ts.size();
    T[] h = new T[1];
    Thread th = new Thread(() -> {
      me.set(h[0]);
      try {
        waitTurn(h[0]);
        r.run();
      } catch (Killed k) {
        // end of run
      } catch (Throwable e) {
        uncaught = e;
      } finally {
        h[0].done = true;
        me.remove();
        if (!killing) next(h[0]);
      }
    }, "m" + id);
    th.setDaemon(true);
    h[0] = new T(id, th, daemon);
    ts.add(h[0]);
    th.start();
    return h[0];
  }

  void waitTurn(T t) {
    int spin = 0;
    while (running != t) {
      if (killing) throw new Killed();
      if (++spin < 50) Thread.onSpinWait(); else LockSupport.park(this);
    }
  }

  int pick(int n, int dflt) {
    int c = pos < choices.size() ? choices.get(pos) : 0;
    if (pos >= choices.size()) { choices.add(0); width.add(n); } else if (pos >= width.size()) width.add(n);
    else width.set(pos, n);
    pos++;
    return c < n ? c : 0;
  }

  void yield_(T t, boolean blocked) {
    if (killing) throw new Killed();
    if (++steps > 20000) { stuck = "more than 20000 steps"; finish(); throw new Killed(); }
    if (!blocked && preempt >= maxPreempt) return;
    List<T> en = new ArrayList<>();
    if (!blocked) en.add(t);
    for (T x : ts) if (x != t && enabled(x)) en.add(x);
    if (blocked && enabled(t)) en.add(0, t);
    if (en.isEmpty()) { idle(); throw new Killed(); }
    T n = en.size() == 1 ? en.get(0) : en.get(pick(en.size(), 0));
    if (n != t) {
      if (!blocked) preempt++;
      running = n;
      LockSupport.unpark(n.th);
      waitTurn(t);
    }
  }

  /** a condition is being evaluated: not a scheduling point */
  volatile boolean inCond;

  boolean holds(BooleanSupplier b) {
    boolean was = inCond;
    inCond = true;
    try { return b.getAsBoolean(); } finally { inCond = was; }
  }

  boolean enabled(T x) { return !x.done && (x.wait == null || holds(x.wait)); }

  void next(T t) {
    List<T> en = new ArrayList<>();
    for (T x : ts) if (x != t && enabled(x)) en.add(x);
    if (en.isEmpty()) { idle(); return; }
    T n = en.size() == 1 ? en.get(0) : en.get(pick(en.size(), 0));
    running = n;
    LockSupport.unpark(n.th);
  }

  /** nothing can run any more */
  void idle() {
    for (T x : ts) if (!x.done && !x.daemon && x.wait != null) stuck = "thread " + x.id + " never returns";
    finish();
  }

  void finish() {
    killing = true;
    running = null;
    for (T x : ts) LockSupport.unpark(x.th);
    LockSupport.unpark(main);
  }

  /** one run; body spawns the threads and is itself thread 0 */
  static Sched run(Runnable body, List<Integer> pre, int maxPreempt) {
    Sched s = new Sched();
    s.choices.addAll(pre);
    s.maxPreempt = maxPreempt;
    s.main = Thread.currentThread();
    cur = s;
    T t = s.spawn(body, false);
    s.running = t;
    LockSupport.unpark(t.th);
    long end = System.nanoTime() + 20_000_000_000L;
    while (!s.killing && System.nanoTime() < end) LockSupport.parkNanos(s, 50_000_000L);
    if (!s.killing) { s.stuck = "run blocked outside the scheduler"; s.finish(); }
    for (T x : s.ts) {
      try { x.th.join(2000); } catch (InterruptedException e) { }
    }
    cur = null;
    return s;
  }

  /** enumerates schedules; check returns null or what is wrong. Returns the failing schedule or null */
  public static String explore(Rep rep, String name, java.util.function.Supplier<Scn> mk, int maxPreempt, int maxRuns) {
    List<Integer> pre = new ArrayList<>();
    for (int run = 0; run < maxRuns; run++) {
      Scn scn = mk.get();
      Sched s = run(scn::body, pre, maxPreempt);
      String bad = scn.check(s);
      rep.eval(name + " schedule " + s.choices);
      if (bad != null) return bad + "; schedule " + compact(s.choices);
      int i = s.pos - 1;
      List<Integer> ch = s.choices;
      while (i >= 0 && ch.get(i) + 1 >= s.width.get(i)) i--;
      if (i < 0) return null;
      pre = new ArrayList<>(ch.subList(0, i));
      pre.add(ch.get(i) + 1);
      if (rep.late()) return null;
    }
    return null;
  }

  static String compact(List<Integer> c) {
    StringBuilder b = new StringBuilder();
    for (int i = 0; i < c.size(); i++) if (c.get(i) != 0) b.append(i).append(':').append(c.get(i)).append(' ');
    return "{" + b.toString().trim() + "}";
  }

  public interface Scn {
    void body();
    /** after the run */
    String check(Sched s);
  }

  public static void spawnT(Runnable r) { cur.spawn(r, false); }
}
