package vh;

import com.webotech.statemachine.*;
import com.webotech.statemachine.api.*;
import java.util.*;

public final class C22 {
  static int effects;
  static final class S implements State<Object, Object> {
    final String n;
    S(String n) { this.n = n; }
    public String getName() { return n; }
    public void onEntry(StateEvent<Object> e, StateMachine<Object, Object> m) { effects++; }
    public void onExit(StateEvent<Object> e, StateMachine<Object, Object> m) { effects++; }
    public void appendEntryActions(StateAction<Object, Object>... a) { effects++; }
    public void appendExitActions(StateAction<Object, Object>... a) { effects++; }
  }
  static final class E implements StateEvent<Object> {
    final String n;
    E(String n) { this.n = n; }
    public String getName() { return n; }
    public Object getPayload() { return null; }
    public void setPayload(Object o) { effects++; }
  }

  public static void seq(Rep rep) {
    LogCap.install();
    rep.family("notifications");
    Random r = new Random(rep.seed);
    List<String> ns = U.names(rep);
    ns.removeIf(x -> x == null || x.isEmpty());
    ns.addAll(List.of("{}{}", "\\{}", "{0}", "$", "\n", " ", "transition", "Begin", "to", "+", "="));
    List<String> ln = new ArrayList<>(ns);
    ln.addAll(List.of("", ""));
    ln.add(null);
    ln.add(null);
    int n = rep.thorough ? 200000 : 20000;
    for (int it = 0; it < n && !rep.late(); it++) {
      String nm = it % 5 == 4 ? (r.nextInt(3) == 0 ? null : "L" + it) : it < ln.size() * 2 ? ln.get(it / 2) : it % 4 == 0 ? ln.get(ln.size() - 1 - r.nextInt(4)) : ln.get(r.nextInt(ln.size()));
      // unique tokens so that the order can be read off the message
      String u = "<" + it + ">";
      String f = "F" + u + pick(ns, r), e = "E" + u + pick(ns, r), t = "T" + u + pick(ns, r);
      if (it % 5 == 4) { f = pickOne(RESERVED, r); e = r.nextBoolean() ? "_immediate_" : pickOne(RESERVED, r); t = pickOne(RESERVED, r); }
      boolean begin = it % 2 == 0, ctor = nm == null && r.nextBoolean();
      String sc = (begin ? "begin" : "end") + ", listener " + (nm == null ? "without name" : "'" + nm + "'") + ", '" + f + "' '" + e + "' '" + t + "'";
      rep.begin(sc);
      effects = 0;
      S from = new S(f), to = new S(t);
      E ev = new E(e);
      LogCap.log.clear();
      String[] got = {null};
      Throwable x = U.thrown(() -> {
        var l = ctor ? new LoggingStateMachineListener<Object, Object>() : new LoggingStateMachineListener<Object, Object>(nm);
        int was = LogCap.log.size();
        if (was != 0) got[0] = "constructing it logged";
        if (begin) l.onStateChangeBegin(from, ev, to); else l.onStateChangeEnd(from, ev, to);
      });
      rep.eval(sc);
      if (x != null) { rep.fail("throws", "threw " + x, sc); continue; }
      if (got[0] != null) rep.fail("constructor", got[0], sc);
      rep.check(effects == 0, "effects", "touched the states or the event", sc);
      if (LogCap.log.size() != 1) { rep.fail("messages", LogCap.log.size() + " messages", sc); continue; }
      String lvl = LogCap.log.get(0)[0], msg = LogCap.log.get(0)[1];
      rep.check(lvl.equals("INFO"), "level", "logged at " + lvl, sc);
      boolean named = nm != null && !nm.isEmpty();
      List<String> want = new ArrayList<>();
      if (begin) want.addAll(List.of(f, e, t)); else want.add(t);
      // the names, each exactly once and in this order
      int pos = 0;
      String rest = "";
      boolean ok = true;
      for (String w : want) {
        int i = msg.indexOf(w, pos);
        if (i < 0) { ok = false; break; }
        rest += msg.substring(pos, i) + "|";
        pos = i + w.length();
      }
      if (!ok) { rep.fail("names", "logged '" + msg + "'", sc); continue; }
      rest += msg.substring(pos);
      String unk = begin ? BEGIN : END;
      if (named) {
        // taking the name out leaves a text that does not depend on the name
        boolean has = rest.contains(nm);
        rep.check(has, "listener-name", "logged '" + msg + "' without the name", sc);
      }
      if (!named) {
        if (unk == null) { if (begin) BEGIN = rest; else END = rest; }
        else rep.check(rest.equals(unk), "unnamed", "logged '" + msg + "', expected the text '" + unk + "'", sc);
      }
    }
    // listeners with a history: the same states, events and listeners again and again
    for (int it = 0; it < n / 20 && !rep.late(); it++) {
      var l = it % 3 == 0 ? new LoggingStateMachineListener<Object, Object>() : new LoggingStateMachineListener<Object, Object>("[L]");
      List<S> ss = new ArrayList<>();
      List<E> es = new ArrayList<>();
      for (int i = 0; i < 1 + r.nextInt(3); i++) ss.add(new S("S<" + it + ">" + (r.nextInt(4) == 0 ? "" : "" + i)));
      for (int i = 0; i < 1 + r.nextInt(3); i++) es.add(new E("E<" + it + ">" + i));
      StringBuilder b = new StringBuilder("one listener" + (it % 3 == 0 ? "" : " [L]") + ": ");
      int m = 1 + r.nextInt(it % 50 == 7 ? 2000 : 12);
      effects = 0;
      for (int o = 0; o < m; o++) {
        S from = ss.get(r.nextInt(ss.size())), to = ss.get(r.nextInt(ss.size()));
        E ev = es.get(r.nextInt(es.size()));
        boolean begin = r.nextInt(3) == 0;
        if (b.length() < 2000) b.append(begin ? "begin " : "end ").append(from.n).append(" ").append(ev.n).append(" ").append(to.n).append("; ");
        LogCap.log.clear();
        Throwable x = U.thrown(() -> { if (begin) l.onStateChangeBegin(from, ev, to); else l.onStateChangeEnd(from, ev, to); });
        if (x != null) { rep.fail("throws", "threw " + x, b.toString()); break; }
        if (LogCap.log.size() != 1) { rep.fail("messages", LogCap.log.size() + " messages for the last one", b.toString()); break; }
        String msg = LogCap.log.get(0)[1];
        rep.check(LogCap.log.get(0)[0].equals("INFO"), "level", "logged at " + LogCap.log.get(0)[0], b.toString());
        int i = begin ? msg.indexOf(from.n) : 0, j = i < 0 ? -1 : begin ? msg.indexOf(ev.n, i) : 0, k = j < 0 ? -1 : msg.indexOf(to.n, begin ? j : 0);
        rep.check(k >= 0, "names", "logged '" + msg + "'", b.toString());
        rep.check(it % 3 == 0 || msg.contains("[L]"), "listener-name", "logged '" + msg + "' without the name", b.toString());
      }
      rep.check(effects == 0, "effects", "touched the states or the event", b.toString());
      rep.eval(b.toString());
    }
    // a name that occurs nowhere else shows in the named text and nowhere in the unnamed one
    rep.check(BEGIN == null || !BEGIN.contains("null"), "unnamed", "the text without a name is '" + BEGIN + "'", "listener without name");
    rep.check(END == null || !END.contains("null"), "unnamed", "the text without a name is '" + END + "'", "listener without name");
  }

  static String BEGIN, END;

  static final List<String> RESERVED = List.of("_UNINITIALISED_", "_NOOP_", "_END_", "_immediate_", "STARTED", "STOPPED", "_", "__");
  static String pickOne(List<String> l, Random r) { return l.get(r.nextInt(l.size())); }
  static String pick(List<String> l, Random r) { return r.nextInt(3) == 0 ? "" : l.get(r.nextInt(l.size())); }
}
