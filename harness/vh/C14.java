package vh;

import com.webotech.statemachine.*;
import com.webotech.statemachine.api.*;
import com.webotech.statemachine.strategy.*;
import java.util.*;

public final class C14 {
  static final String[] MODE = {"default strategies", "one builder reused", "one config, default strategies", "one config, drop-duplicate strategies", "separate configs", "one config, both kinds", "factory defaults, drop-duplicate", "two builders, static defaults both kinds"};

  public static void seq(Rep rep) {
    rep.family("pairs of machines");
    int n = rep.thorough ? 40000 : 4000;
    Random r = new Random(rep.seed);
    for (int it = 0; it < n && !rep.late(); it++) {
      int mode = it % MODE.length;
      boolean own = mode == 2 || mode == 3 || mode == 4 || mode == 5;   // executor can be given
      one(rep, r, mode, own);
    }
  }

  static void one(Rep rep, Random r, int mode, boolean own) {
    StringBuilder sc = new StringBuilder(MODE[mode] + ": ");
    rep.begin(sc.toString());
    int k = 2 + r.nextInt(own && r.nextInt(4) == 0 ? 7 : 2);
    World.Exec[] ex = new World.Exec[k];
    List<GenericStateMachine<Object, Object>> ms = new ArrayList<>();
    List<EventProcessingStrategy<Object, Object>> ss = new ArrayList<>();
    List<List<String>> logs = new ArrayList<>(), want = new ArrayList<>();
    GenericStateMachine.Builder<Object, Object> shared = new GenericStateMachine.Builder<>();
    var cfg = U.cfg();
    World.Exec one = new World.Exec();
    if (mode == 2 || mode == 3 || mode == 5) cfg.withExecutor(one);
    boolean dup[] = new boolean[k];
    for (int i = 0; i < k; i++) {
      ex[i] = mode == 4 ? new World.Exec() : one;
      EventProcessingStrategy<Object, Object> s = null;
      switch (mode) {
        case 2: s = EventProcessingStrategyFactory.createDefaultStrategy(cfg); break;
        case 3: s = EventProcessingStrategyFactory.createDropDuplicateStrategy(cfg); dup[i] = true; break;
        case 4: s = EventProcessingStrategyFactory.createDefaultStrategy(U.cfg().withExecutor(ex[i])); break;
        case 5: dup[i] = i % 2 == 1; s = dup[i] ? EventProcessingStrategyFactory.createDropDuplicateStrategy(cfg) : EventProcessingStrategyFactory.createDefaultStrategy(cfg); break;
        case 6: s = EventProcessingStrategyFactory.createDropDuplicateStrategy(); dup[i] = true; break;
        case 7: dup[i] = i % 2 == 1; s = dup[i] ? EventProcessingStrategyFactory.createDropDuplicateStrategy() : EventProcessingStrategyFactory.createDefaultStrategy(); break;
        default:
      }
      GenericStateMachine.Builder<Object, Object> b = mode == 1 ? shared : new GenericStateMachine.Builder<>();
      if (s != null) b.setEventProcessingStrategy(s);
      ms.add(b.build());
      logs.add(Collections.synchronizedList(new ArrayList<>()));
      want.add(new ArrayList<>());
    }
    // different tables over the same names
    int[] cur = new int[k];
    String[] names = {"A", "B", "C"};
    int[][][] map = new int[k][3][2];
    for (int i = 0; i < k; i++) {
      var m = ms.get(i);
      State<Object, Object>[] st = new State[3];
      int id = i;
      for (int j = 0; j < 3; j++) {
        st[j] = U.st(names[j]);
        String nm = names[j];
        st[j].appendEntryActions((e, s) -> { if (!e.getName().startsWith("_")) logs.get(id).add((s == m ? "" : "WRONG ") + nm + e.getPayload()); });
      }
      m.initialSate(st[0]);
      for (int j = 0; j < 3; j++) for (int e = 0; e < 2; e++) {
        map[i][j][e] = r.nextInt(3);
        if (j + e > 0) m.when(st[j]);
        m.receives(U.ev("e" + e)).itTransitionsTo(st[map[i][j][e]]);
      }
    }
    boolean[] started = new boolean[k], ended = new boolean[k];
    int nf = 0;
    int[] size = new int[k];
    List<List<Integer>> waiting = new ArrayList<>();
    for (int i = 0; i < k; i++) waiting.add(new ArrayList<>());
    java.util.concurrent.CountDownLatch gate = new java.util.concurrent.CountDownLatch(1);
    int len = 3 + r.nextInt(10);
    for (int o = 0; o < len; o++) {
      int i = r.nextInt(k), what = r.nextInt(10);
      var m = ms.get(i);
      if (!started[i]) { m.start(); started[i] = true; sc.append("start" + i + " "); }
      else if (what == 0 && !ended[i] && own) { m.stop(); ended[i] = true; sc.append("stop" + i + " "); }
      else {
        int e = r.nextInt(2);
        sc.append("fire" + i + "e" + e + " ");
        m.fire(U.ev("e" + e, "p" + nf));
        if (!ended[i] && !(own && dup[i] && waiting.get(i).contains(e)) && !(dup[i] && !own)) {
          waiting.get(i).add(e);
          want.get(i).add("e" + e + "p" + nf);
        } else if (dup[i] && !own) { waiting.get(i).add(e); }
        nf++;
      }
      if (own) {
        for (int q = 0; q < k; q++) rep.check(ms.get(q).getEventQueueSize() == waiting.get(q).size(), "queue-size", "machine " + q + " reports " + ms.get(q).getEventQueueSize() + " waiting, expected " + waiting.get(q).size(), sc.toString());
        if (r.nextInt(3) == 0) {
          sc.append("run ");
          for (int q = 0; q < k; q++) ex[q].all();
          for (int q = 0; q < k; q++) waiting.get(q).clear();
        }
        for (int q = 0; q < k; q++) {
          rep.check(ms.get(q).isStarted() == started[q] && ms.get(q).isEnded() == ended[q], "flags", "machine " + q + " flags", sc.toString());
        }
      }
    }
    if (own) for (int q = 0; q < k; q++) ex[q].all();
    else {
      // the real executor: wait until each queue is drained and a final marker event was processed
      long end = System.currentTimeMillis() + 8000;
      for (int q = 0; q < k; q++) {
        while (started[q] && ms.get(q).getEventQueueSize() > 0 && System.currentTimeMillis() < end) Thread.onSpinWait();
        if (started[q] && !dup[q]) while (logs.get(q).size() < want.get(q).size() && System.currentTimeMillis() < end) Thread.onSpinWait();
      }
      if (dup[0] || dup[1]) { try { Thread.sleep(1); } catch (InterruptedException e) { } }
    }
    for (int q = 0; q < k; q++) {
      if (!started[q]) continue;
      // replay the machine's own table
      List<String> w = new ArrayList<>();
      int c = 0;
      if (!own && dup[q]) {
        for (String l : new ArrayList<>(logs.get(q))) if (l.startsWith("WRONG")) rep.fail("wrong-machine", "machine " + q + " " + l, sc.toString());
        continue;
      }
      if (ended[q]) {
        for (String l : logs.get(q)) if (l.startsWith("WRONG")) rep.fail("wrong-machine", "machine " + q + " " + l, sc.toString());
        rep.check(ms.get(q).getCurrentState() == ms.get(q).getEndState(), "ended", "state", sc.toString());
        continue;
      }
      for (String x : want.get(q)) {
        c = map[q][c][x.charAt(1) - '0'];
        w.add(names[c] + x.substring(2));
      }
      rep.check(new ArrayList<>(logs.get(q)).equals(w), "processing", "machine " + q + " processed " + logs.get(q) + " expected " + w, sc.toString());
    }
    rep.eval(sc.toString());
  }
}
