package vh;

import com.webotech.statemachine.util.Threads;
import java.util.*;
import java.util.concurrent.*;
import java.lang.Thread.UncaughtExceptionHandler;

public final class C20 {
  static long number(String name, String thread) {
    if (!thread.startsWith(name + "-")) return -1;
    String d = thread.substring(name.length() + 1);
    if (d.isEmpty()) return -1;
    for (char c : d.toCharArray()) if (c < '0' || c > '9') return -1;
    return Long.parseLong(d);
  }

  public static void seq(Rep rep) throws Exception {
    Random r = new Random(rep.seed);
    List<String> names = U.names(rep);
    names.remove(null);
    names.addAll(List.of("%", "%d", "%%", "a%nb", "%1$s", "-", "a-", "%s-%s", "\n"));
    Map<Long, String> used = new HashMap<>();
    int[] total = {0};
    rep.family("one thread creating");
    int n = rep.thorough ? 40000 : 6000;
    List<Integer> many = new ArrayList<>(List.of(1200));
    for (int h : rep.nums) if (h > 100 && h < 70000) many.add(h + 5);
    for (int it = 0; it < n && !rep.late(); it++) {
      String nm = names.get(it % names.size());
      boolean withHandler = r.nextBoolean(), nullHandler = !withHandler && r.nextBoolean();
      List<Object[]> caught = Collections.synchronizedList(new ArrayList<>());
      UncaughtExceptionHandler h = (t, e) -> caught.add(new Object[] {t, e});
      String sc = "name '" + nm + "', " + (withHandler ? "handler" : nullHandler ? "null handler" : "no handler");
      rep.begin(sc);
      ThreadFactory f;
      try { f = withHandler ? Threads.newNamedDaemonThreadFactory(nm, h) : nullHandler ? Threads.newNamedDaemonThreadFactory(nm, null) : Threads.newNamedDaemonThreadFactory(nm); }
      catch (RuntimeException e) { rep.fail("factory", "" + e, sc); continue; }
      int k = 1 + r.nextInt(3);
      int[] ran = {0};
      Throwable boom = r.nextInt(3) == 0 ? new Error("boom") : null;
      for (int j = 0; j < k; j++) {
        Thread t;
        Runnable task = () -> { ran[0]++; if (boom != null && withHandler) throw (Error) boom; };
        try { t = f.newThread(task); } catch (RuntimeException e) { rep.fail("newThread", "" + e, sc); break; }
        one(rep, t, nm, used, sc);
        rep.check(t.getState() == Thread.State.NEW && ran[0] == (it % 4 == 0 ? j : 0), "early", "the thread is " + t.getState() + ", task ran " + ran[0], sc);
        UncaughtExceptionHandler got = t.getUncaughtExceptionHandler();
        rep.check(withHandler ? got == h : got == t.getThreadGroup(), "handler", "handler is " + got, sc);
        if (it % 4 == 0) {
          t.start();
          t.join();
          rep.check(ran[0] == j + 1, "task", "the task ran " + ran[0] + " times", sc);
          if (boom != null && withHandler) rep.check(caught.size() == j + 1 && caught.get(j)[1] == boom && caught.get(j)[0] == t, "caught", "the handler got " + caught.size(), sc);
        }
      }
      rep.eval(sc);
    }
    rep.family("many from one factory");
    for (int m : many) {
      ThreadFactory f = Threads.newNamedDaemonThreadFactory("m");
      for (int i = 0; i < m && !rep.late(); i++) one(rep, f.newThread(() -> { }), "m", used, m + " threads of one factory");
      rep.eval(m + " threads");
    }
    rep.family("daemon and non daemon creators");
    for (boolean d : new boolean[] {true, false}) {
      Thread[] made = new Thread[1];
      Thread c = new Thread(() -> made[0] = Threads.newNamedDaemonThreadFactory("c").newThread(() -> { }));
      c.setDaemon(d);
      c.start();
      c.join();
      one(rep, made[0], "c", used, "creator daemon=" + d);
      rep.eval("creator daemon=" + d);
    }
    rep.family("concurrent creators");
    int rounds = rep.thorough ? 400 : 60;
    for (int it = 0; it < rounds && !rep.late(); it++) {
      ThreadFactory shared = Threads.newNamedDaemonThreadFactory("s");
      List<String> got = Collections.synchronizedList(new ArrayList<>());
      Thread[] ts = new Thread[6];
      boolean own = it % 2 == 0;
      for (int i = 0; i < ts.length; i++) {
        ts[i] = new Thread(() -> {
          ThreadFactory f = own ? Threads.newNamedDaemonThreadFactory("s") : shared;
          List<String> mine = new ArrayList<>();
          for (int j = 0; j < 300; j++) mine.add(f.newThread(() -> { }).getName());
          got.addAll(mine);
        });
      }
      for (Thread t : ts) t.start();
      for (Thread t : ts) t.join();
      String sc = "6 threads, " + (own ? "own factories" : "one factory");
      Set<Long> set = new HashSet<>();
      for (String s : got) {
        long x = number("s", s);
        rep.check(x >= 0, "name", "name '" + s + "'", sc);
        rep.check(set.add(x) && !used.containsKey(x), "unique", "number " + x + " used twice", sc);
        used.put(x, s);
      }
      rep.eval(sc);
    }
  }

  static void one(Rep rep, Thread t, String nm, Map<Long, String> used, String sc) {
    if (t == null) { rep.fail("newThread", "null", sc); return; }
    long x = number(nm, t.getName());
    rep.check(x >= 0, "name", "the thread is called '" + t.getName() + "'", sc);
    rep.check(t.isDaemon(), "daemon", "not a daemon", sc);
    if (x >= 0) {
      String o = used.put(x, t.getName());
      rep.check(o == null, "unique", "number " + x + " was used before by '" + o + "'", sc);
    }
  }

  static final class Race implements Sched.Scn {
    final boolean own;
    final List<Thread> ts = Collections.synchronizedList(new ArrayList<>());
    Race(boolean own) { this.own = own; }
    public void body() {
      ThreadFactory f = Threads.newNamedDaemonThreadFactory("r");
      for (int i = 0; i < 2; i++) Sched.spawnT(() -> {
        ThreadFactory x = own ? Threads.newNamedDaemonThreadFactory("r") : f;
        ts.add(x.newThread(() -> { }));
        ts.add(x.newThread(() -> { }));
      });
      ts.add(f.newThread(() -> { }));
    }
    public String check(Sched s) {
      if (s.stuck != null) return s.stuck;
      if (s.uncaught != null) return "" + s.uncaught;
      Set<Long> set = new HashSet<>();
      for (Thread t : ts) {
        long x = number("r", t.getName());
        if (x < 0 || !set.add(x)) return "names " + ts;
        if (!t.isDaemon()) return "not a daemon";
      }
      return null;
    }
  }

  public static void conc(Rep rep) {
    for (boolean own : new boolean[] {false, true}) {
      String nm = own ? "own factories" : "one factory";
      rep.family(nm);
      rep.begin(nm);
      for (int b = 1; b <= 3; b++) {
        String x = Sched.explore(rep, nm, () -> new Race(own), b, rep.thorough ? 20000 : 1500);
        if (x != null) { rep.fail("interleaving", x, nm + " (preemption bound " + b + ")"); return; }
      }
    }
  }
}
