package vh;

import com.webotech.statemachine.*;
import com.webotech.statemachine.api.*;
import java.util.*;

public final class C12 {
  @SuppressWarnings("unchecked")
  public static void seq(Rep rep) {
    rep.family("append and run");
    Random r = new Random(rep.seed);
    int n = rep.thorough ? 300000 : 40000;
    List<String> nm = U.names(rep);
    for (int it = 0; it < n && !rep.late(); it++) {
      NamedState<Object, Object> s = U.st(nm.get(r.nextInt(nm.size())));
      StringBuilder b = new StringBuilder();
      List<Integer>[] want = new List[] {new ArrayList<>(), new ArrayList<>()};
      List<Integer> log = new ArrayList<>();
      NamedStateEvent<Object> e = U.ev(nm.get(r.nextInt(nm.size())), r.nextInt(2) == 0 ? null : "p");
      GenericStateMachine<Object, Object> m = r.nextInt(20) == 0 ? null : U.machine(new U.Strat());
      boolean stops = m != null && r.nextInt(4) == 0;       // some actions stop the machine
      int[] failAt = {-1};
      Throwable[] thrown = {null};
      boolean[] args = {true};
      List<StateAction<Object, Object>> acts = new ArrayList<>();
      int pool = 1 + r.nextInt(it % 7 == 0 ? 12 : 4);
      for (int i = 0; i < pool; i++) {
        int id = i;
        java.util.function.BiConsumer<StateEvent<Object>, StateMachine<Object, Object>> ran = (ev, sm) -> {
          args[0] &= ev == e && sm == m;
          log.add(id);
          if (stops && id % 2 == 0) m.stop();
          if (log.size() - 1 == failAt[0]) { World.<RuntimeException>sneaky(thrown[0]); }
        };
        // actions of different classes
        switch (r.nextInt(4)) {
          case 0: acts.add((ev, sm) -> ran.accept(ev, sm)); break;
          case 1: acts.add(ran::accept); break;
          case 2: acts.add(new StateAction<Object, Object>() {
            public void execute(StateEvent<Object> ev, StateMachine<Object, Object> sm) { ran.accept(ev, sm); }
          }); break;
          default: acts.add((ev, sm) -> { ran.accept(ev, sm); });
        }
      }
      int ops = 1 + r.nextInt(6);
      boolean big = it % 997 == 5;
      for (int o = 0; o < ops; o++) {
        int k = r.nextInt(4);
        if (k < 3) {
          int side = r.nextInt(2);
          StateAction<Object, Object>[] a = new StateAction[big ? 20 + r.nextInt(200) : r.nextInt(4)];
          b.append(side == 0 ? "appendEntry" : "appendExit").append("[");
          for (int i = 0; i < a.length; i++) {
            int w = r.nextInt(pool + 1) - 1;
            a[i] = w < 0 ? null : acts.get(w);
            if (w >= 0) want[side].add(w);
            b.append(w).append(' ');
          }
          b.append("] ");
          if (side == 0) s.appendEntryActions(a); else s.appendExitActions(a);
        } else {
          for (int side = 0; side < 2; side++) {
            log.clear();
            failAt[0] = r.nextInt(3) == 0 && want[side].size() > 0 ? r.nextInt(want[side].size()) : -1;
            thrown[0] = r.nextInt(3) == 0 ? new World.Err("e") : r.nextInt(2) == 0 ? new World.Checked("c") : new World.Boom("b");
            b.append(side == 0 ? "enter" : "leave").append(failAt[0] >= 0 ? " failing at " + failAt[0] : "").append("; ");
            int sd = side;
            rep.begin(b.toString());
            Throwable t = U.thrown(() -> { if (sd == 0) s.onEntry(e, m); else s.onExit(e, m); });
            List<Integer> w = failAt[0] >= 0 ? want[side].subList(0, failAt[0] + 1) : want[side];
            rep.check(log.equals(w), "actions", "ran " + log + " expected " + w, b.toString());
            rep.check(t == (failAt[0] >= 0 ? thrown[0] : null), "exception", "threw " + t, b.toString());
            rep.check(args[0], "arguments", "an action got another event or machine", b.toString());
          }
        }
      }
      for (int side = 0; side < 2; side++) {
        log.clear();
        failAt[0] = -1;
        int sd = side;
        U.thrown(() -> { if (sd == 0) s.onEntry(e, m); else s.onExit(e, m); });
        rep.check(log.equals(want[side]), "actions", "ran " + log + " expected " + want[side], b.toString());
      }
      rep.eval(b.toString());
    }
  }
}
