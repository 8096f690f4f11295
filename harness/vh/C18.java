package vh;

import com.webotech.statemachine.service.api.Subsystem;
import java.util.*;

public final class C18 {
  public static void seq(Rep rep) {
    rep.family("apps");
    Random r = new Random(rep.seed);
    List<Integer> big = new ArrayList<>(List.of(10, 20, 64));
    for (int h : rep.nums) if (h > 3 && h < 1500) { big.add(h); big.add(h + 1); }
    int n = rep.thorough ? 3000 : 400;
    for (int it = 0; it < n && !rep.late(); it++) {
      int k = it < 6 ? it : it < 6 + big.size() ? big.get(it - 6) : r.nextInt(it % 10 == 0 ? 12 : 5);
      one(rep, r, it, k);
    }
  }

  static void one(Rep rep, Random r, int it, int k) {
    boolean exit = r.nextBoolean();
    AppRig g = new AppRig("app");
    int rounds = exit ? 1 : 1 + r.nextInt(3);
    // what fails: round -> index
    int[] failStart = new int[rounds], failStop = new int[rounds];
    for (int i = 0; i < rounds; i++) {
      failStart[i] = k > 0 && it > 8 && r.nextInt(3) == 0 ? r.nextInt(k) : -1;
      failStop[i] = k > 0 && it > 8 && r.nextInt(3) == 0 ? r.nextInt(k) : -1;
    }
    boolean dup = k > 1 && r.nextInt(6) == 0;
    int[] round = {0};
    List<String> bad = Collections.synchronizedList(new ArrayList<>());
    class Sub implements Subsystem<AppRig.Ctx> {
      final int i;
      Sub(int i) { this.i = i; }
      void fail(boolean f, String w) {
        if (!f) return;
        int kind = (it + i) % 4;
        if (kind == 0) throw new IllegalStateException(w);
        if (kind == 1) AppRig.<RuntimeException>sneaky(new Exception(w));
        if (kind == 2) AppRig.<RuntimeException>sneaky(new java.io.IOException(w));
        throw new NullPointerException(w);
      }
      public void start(AppRig.Ctx c) { g.log.add("start " + i); if (c != g.ctx) bad.add("start with " + c); fail(failStart[round[0]] == i, "start"); }
      public void stop(AppRig.Ctx c) { g.log.add("stop " + i); if (c != g.ctx) bad.add("stop with " + c); fail(failStop[round[0]] == i, "stop"); }
      public boolean equals(Object o) { return dup ? o instanceof Sub : o == this; }
      public int hashCode() { return dup ? 1 : i; }
      public String toString() { return "s" + i; }
    }
    List<Subsystem<AppRig.Ctx>> l = it % 3 == 0 ? new LinkedList<>() : new ArrayList<>();
    for (int i = 0; i < k; i++) l.add(new Sub(i));
    if (it % 3 == 2) l = List.copyOf(l);
    boolean set = k > 0 || r.nextBoolean();
    if (set) g.ctx.withSubsystems(l);
    g.build(exit, it % 2 == 0);
    String sc = k + " subsystems" + (dup ? " (equal to each other)" : "") + ", " + (exit ? "exit on stop" : "restartable") + ", start fails at " + Arrays.toString(failStart) + ", stop fails at " + Arrays.toString(failStop) + ", " + l.getClass().getSimpleName();
    rep.begin(sc);
    rep.check(g.log.isEmpty(), "early", "before the start: " + g.log, sc);
    List<String> want = new ArrayList<>();
    for (int rd = 0; rd < rounds; rd++) {
      round[0] = rd;
      want.clear();
      g.log.clear();
      want.add("fire start");
      int f = failStart[rd];
      for (int i = 0; i < k && (f < 0 || i <= f); i++) want.add("start " + i);
      want.add(f < 0 ? "fire complete" : "fire error");
      if (rd == 0) g.startInBackground(); else g.app.start();
      String st = f < 0 ? "STARTED" : exit ? "_END_" : "STOPPED";
      if (f >= 0 && exit) want.add("fire stop");
      int ws = g.seen(want).size();
      if (!AppRig.await(() -> g.state().equals(st) && g.log.size() >= ws)) { if (!cmp(rep, g, want, "start", sc)) return; rep.fail("start-outcome", "the app is in " + g.state() + " instead of " + st + " after " + g.log, sc); return; }
      if (!cmp(rep, g, want, "start", sc)) return;
      rep.check(bad.isEmpty(), "context", bad + "", sc);
      if (f >= 0) { rep.eval(sc); if (exit) return; continue; }
      g.log.clear();
      want.clear();
      want.add("fire stop");
      f = failStop[rd];
      for (int i = k - 1; i >= 0 && (f < 0 || i >= f); i--) want.add("stop " + i);
      want.add(f < 0 ? "fire complete" : "fire error");
      if (exit) want.add("fire stop");
      g.app.stop();
      String st2 = exit ? "_END_" : "STOPPED";
      if (!g.awaitState(st2)) { rep.fail("stop-outcome", "the app is in " + g.state() + " instead of " + st2 + " after " + g.log, sc); return; }
      if (!cmp(rep, g, want, "stop", sc)) return;
      rep.check(bad.isEmpty(), "context", bad + "", sc);
    }
    if (!exit) {
      g.log.clear();
      g.app.stop();
      if (!g.awaitState("_END_")) rep.fail("end", "the app is in " + g.state() + " after a stop in STOPPED", sc);
      cmp(rep, g, List.of("fire stop"), "end", sc);
    }
    rep.eval(sc);
  }

  static boolean cmp(Rep rep, AppRig g, List<String> want, String key, String sc) {
    List<String> w = g.seen(want), l = new ArrayList<>(g.log);
    if (l.equals(w)) return true;
    rep.fail(key, "happened " + cut(l) + " instead of " + cut(w), sc);
    return false;
  }

  static String cut(List<String> l) { String s = l.toString(); return s.length() > 700 ? s.substring(0, 700) + "..." : s; }
}
