package vh;

import com.webotech.statemachine.api.*;
import com.webotech.statemachine.service.api.Subsystem;
import java.util.*;
import java.util.concurrent.*;

public final class C19 {
  /** waits at a gate in start, stop or when the stopped state is reached */
  static final class Gate {
    volatile String closed = "";
    volatile boolean reached;
    void at(String where) {
      if (!closed.equals(where)) return;
      reached = true;
      AppRig.await(() -> !closed.equals(where));
    }
    void open() { closed = ""; reached = false; }
  }

  public static void seq(Rep rep) {
    Random r = new Random(rep.seed);
    int n = rep.thorough ? 3000 : 350;
    for (int it = 0; it < n && !rep.late(); it++) one(rep, r, it);
  }

  static void one(Rep rep, Random r, int it) {
    boolean exit = it % 2 == 0;
    rep.family(exit ? "exit on stop" : "restartable");
    AppRig g = new AppRig(it % 3 == 0 ? "app" : it % 3 == 1 ? "" : "x{}%s");
    Gate gate = new Gate();
    Subsystem<AppRig.Ctx> sub = new Subsystem<>() {
      public void start(AppRig.Ctx c) { gate.at("STARTING"); }
      public void stop(AppRig.Ctx c) { gate.at("STOPPING"); }
    };
    g.ctx.withSubsystems(List.of(sub));
    g.build(exit, it % 4 == 0);
    g.app.setStateMachineListener(new StateMachineListener<>() {
      public void onStateChangeBegin(State<AppRig.Ctx, Void> f, StateEvent<Void> e, State<AppRig.Ctx, Void> t) { }
      public void onStateChangeEnd(State<AppRig.Ctx, Void> f, StateEvent<Void> e, State<AppRig.Ctx, Void> t) { gate.at("at " + t.getName()); }
    });
    StringBuilder sc = new StringBuilder((exit ? "exit on stop" : "restartable") + ": ");
    String st = "null";
    boolean started = false;
    boolean lengthy = !exit && it % 25 == 1;         // many restarts of one app
    int ops = lengthy ? 60 + r.nextInt(20) : 3 + r.nextInt(8);
    for (int o = 0; o < ops || started && !st.equals("_END_"); o++) {
      if (o > ops + 40) break;
      // choose an operation, preferring those that do something
      int op = r.nextInt(o >= ops ? 2 : 3);           // 0 start 1 stop 2 error
      if (lengthy && r.nextInt(8) > 0) op = !started || st.equals("STOPPED") ? 0 : 1 + r.nextInt(2);
      if (o >= ops) op = !exit && st.equals("STOPPED") || st.equals("STARTED") ? 1 : op;
      // sometimes look at the app while it is in an intermediate state
      String block = "";
      if (op == 0 && (!started || !exit && st.equals("STOPPED")) && r.nextInt(3) == 0) block = "STARTING";
      if (op == 1 && st.equals("STARTED") && r.nextInt(3) == 0) block = "STOPPING";
      if (op >= 1 && exit && st.equals("STARTED") && block.isEmpty() && r.nextInt(3) == 0) block = "at STOPPED";
      gate.closed = block;
      gate.reached = false;
      String nm = (op == 0 ? "start " : op == 1 ? "stop " : "error ");
      sc.append(nm);
      rep.begin(sc.toString());
      List<String> fires = new ArrayList<>();
      boolean ise = false;
      String next = st;
      if (op == 0) {
        if (!started) { fires.add("fire start"); next = "STARTING"; }
        else if (!exit && st.equals("STOPPED")) { fires.add("fire start"); next = "STARTING"; }
        else ise = true;
      } else if (op == 1) {
        if (st.equals("STARTED")) { fires.add("fire stop"); next = "STOPPING"; }
        else if (!exit && st.equals("STOPPED")) { fires.add("fire stop"); next = "_END_"; }
        else ise = true;
      } else {
        fires.add("fire error");
        if (st.equals("STARTED")) next = "STOPPED";
      }
      g.log.clear();
      if (op == 0 && !started) {
        started = true;
        g.startInBackground();
      } else if (!call(rep, g, op, ise, sc.toString())) return;
      int errs = 0;
      if (!block.isEmpty()) {
        if (!AppRig.await(() -> gate.reached)) { rep.fail("intermediate", "never got to " + block + ", is in " + g.state(), sc.toString()); return; }
        String bs = block.startsWith("at ") ? "STOPPED" : block;
        rep.check(g.state().equals(bs), "intermediate", "is in " + g.state() + " while " + block, sc.toString());
        if (block.startsWith("at ")) {
          if (op == 1) fires.add("fire complete");
          fires.add("fire stop");
        }
        int m = r.nextInt(4);
        sc.append("[in " + bs + ": ");
        for (int j = 0; j < m; j++) {
          int op2 = r.nextInt(3);
          sc.append(op2 == 0 ? "start " : op2 == 1 ? "stop " : "error ");
          boolean ise2 = op2 == 0 || op2 == 1 && !bs.equals("STOPPED");
          if (op2 == 2) { fires.add("fire error"); errs++; }
          if (!call(rep, g, op2, ise2, sc.toString())) return;
        }
        sc.append("] ");
        gate.open();
      }
      // where it settles
      if (next.equals("STARTING")) { fires.add("fire complete"); next = errs > 0 ? "STOPPED" : "STARTED"; }
      else if (next.equals("STOPPING")) { if (!block.equals("at STOPPED")) fires.add("fire complete"); next = "STOPPED"; }
      if (next.equals("STOPPED") && exit) { if (!block.equals("at STOPPED")) fires.add("fire stop"); next = "_END_"; }
      if (!g.awaitState(next)) { rep.fail("state", "is in " + g.state() + " instead of " + next, sc.toString()); return; }
      st = next;
      if (st.equals("_END_") && !AppRig.await(() -> g.returned)) { rep.fail("start-blocks", "start() has not returned although the app is over", sc.toString()); return; }
      if (started && !st.equals("_END_")) {
        if (it % 8 < 2) { try { Thread.sleep(2); } catch (InterruptedException e) { } }
        if (g.returned) { rep.fail("start-returns", "start() returned (" + g.thrown + ") while the app is in " + st, sc.toString()); return; }
      }
      if (g.returned && g.thrown != null) { rep.fail("start-throws", "start() threw " + g.thrown, sc.toString()); return; }
      if (!C18.cmp(rep, g, fires, "fires", sc.toString())) return;
    }
    rep.eval(sc.toString());
  }

  static boolean call(Rep rep, AppRig g, int op, boolean ise, String sc) {
    Throwable t = U.thrown(() -> { if (op == 0) g.app.start(); else if (op == 1) g.app.stop(); else g.app.error(op == 2 ? new Exception("x") : null); });
    boolean ok = ise ? t instanceof IllegalStateException : t == null;
    if (!ok) rep.fail(ise ? "accepted" : "refused", "gave " + t + (ise ? " instead of an IllegalStateException" : "") + " in " + g.state(), sc);
    return ok;
  }

  static final class Scn implements Sched.Scn {
    final int kind;
    AppRig g;
    int ret, ises;
    final List<String> bad = new ArrayList<>();
    Scn(int k) { kind = k; }
    void start() {
      try { g.app.start(); ret++; } catch (IllegalStateException e) { ises++; } catch (Throwable t) { bad.add("start threw " + t); }
    }
    void op(Runnable r, boolean may) {
      try { r.run(); } catch (IllegalStateException e) { if (!may) bad.add("" + e); }
    }
    void in(String... s) { Sched.block(() -> List.of(s).contains(g.state())); }
    public void body() {
      g = new AppRig("app");
      Subsystem<AppRig.Ctx> sub = new Subsystem<>() {
        public void start(AppRig.Ctx c) { }
        public void stop(AppRig.Ctx c) { }
      };
      g.ctx.withSubsystems(List.of(sub));
      g.build(kind != 2, false);
      if (kind == 0) Sched.spawnT(() -> { in("STARTED"); op(g.app::stop, false); });
      if (kind == 1) Sched.spawnT(() -> { in("STARTED"); op(() -> g.app.error(null), false); });
      if (kind == 2) Sched.spawnT(() -> {
        in("STARTED"); op(g.app::stop, false);
        in("STOPPED"); op(g.app::start, false);
        in("STARTED"); op(g.app::stop, false);
        in("STOPPED"); op(g.app::stop, false);
      });
      if (kind == 3) { Sched.spawnT(this::start); Sched.spawnT(() -> { in("STARTED"); op(g.app::stop, false); }); }
      if (kind == 4) { Sched.spawnT(() -> op(() -> g.app.error(null), false)); Sched.spawnT(() -> { in("STARTED", "STOPPED", "_END_"); op(g.app::stop, true); in("STARTED", "STOPPED", "_END_"); op(g.app::stop, true); }); }
      if (kind == 5) { Sched.spawnT(() -> { in("STARTED", "STOPPED", "_END_"); op(g.app::stop, true); }); Sched.spawnT(() -> { in("STARTED", "STOPPED", "_END_"); op(() -> g.app.error(null), true); }); }
      start();
    }
    public String check(Sched s) {
      if (s.stuck != null) return s.stuck + ", the app is in " + g.state();
      if (s.uncaught != null) return "" + s.uncaught;
      if (!bad.isEmpty()) return bad.toString();
      if (ret != 1 || ises != (kind == 3 ? 1 : 0)) return ret + " starts returned, " + ises + " were refused";
      if (!g.state().equals("_END_")) return "the app is in " + g.state();
      return null;
    }
  }

  public static void conc(Rep rep) {
    String[] nm = {"stop when started", "error when started", "restart and stop", "two concurrent starts", "error while starting", "stop and error when started"};
    for (int k = 0; k < nm.length; k++) {
      int kk = k;
      rep.family(nm[k]);
      rep.begin(nm[k]);
      for (int b = 0; b <= 2; b++) {
        String x = Sched.explore(rep, nm[k], () -> new Scn(kk), b, rep.thorough ? 8000 : 350);
        if (x != null) { rep.fail("interleaving: " + nm[k], x, nm[k] + " (preemption bound " + b + ")"); break; }
        if (rep.late()) return;
      }
    }
  }
}
