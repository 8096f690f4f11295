package vh;

import com.webotech.statemachine.*;
import com.webotech.statemachine.api.*;
import java.util.*;

public final class C13 {
  static final class OtherEvent implements StateEvent<Object> {
    final String n;
    Object p;
    OtherEvent(String n, Object p) { this.n = n; this.p = p; }
    public String getName() { return n; }
    public Object getPayload() { return p; }
    public void setPayload(Object o) { p = o; }
  }

  public static void seq(Rep rep) {
    rep.family("pairs of names");
    List<String> nm = new ArrayList<>(U.names(rep));
    Random r = new Random(rep.seed);
    for (int i = 0; i < 120; i++) {
      StringBuilder b = new StringBuilder();
      int l = r.nextInt(i < 60 ? 4 : 40);
      for (int k = 0; k < l; k++) b.append((char) (r.nextInt(4) > 0 ? 'a' + r.nextInt(3) : r.nextInt(256)));
      nm.add(b.toString());
    }
    List<Object> pls = Arrays.asList(null, "p", "q", 1, new Object());
    for (int i = 0; i < nm.size() && !rep.late(); i++) {
      for (int j = 0; j < nm.size() && !rep.late(); j++) {
        String a = nm.get(i), b = nm.get(j) == null ? null : new String(nm.get(j));
        String sc = "names <" + a + "> <" + b + ">";
        rep.begin(sc);
        boolean eq = Objects.equals(a, b);
        NamedState<Object, Object> s = U.st(a), t = U.st(b);
        if (i % 3 == 0) t.appendEntryActions((e, m) -> { });
        if (j % 3 == 0) s.appendExitActions((e, m) -> { });
        pair(rep, sc + " states", s, t, eq);
        Object p = pls.get((i + j) % 5), q = pls.get((i * 3 + j) % 5);
        NamedStateEvent<Object> e = U.ev(a, p), f = U.ev(b, q);
        pair(rep, sc + " events payloads " + p + " " + q, e, f, eq);
        pair(rep, sc + " state and event", s, f, false);
        pair(rep, sc + " event and string", e, b == null ? "null" : b, false);
        pair(rep, sc + " state and user-defined state", s, new World.Custom(b == null ? "null" : b), false);
        pair(rep, sc + " event and user-defined event", e, new OtherEvent(b, q), false);
        rep.check(e.getPayload() == p && f.getPayload() == q, "payload", "payload changed", sc);
        f.setPayload(p);
        rep.check(f.getPayload() == p && e.getPayload() == p && Objects.equals(f.getName(), b) && Objects.equals(e.getName(), a), "set-payload", "setPayload", sc);
        f.setPayload(q);
        NamedStateEvent<Object> c = new NamedStateEvent<>((StateEvent<Object>) e);
        rep.check(c != e && Objects.equals(c.getName(), a) && c.getPayload() == p && c.equals(e) && c.hashCode() == e.hashCode(), "copy", "copy differs", sc);
        c.setPayload("changed");
        rep.check(e.getPayload() == p, "copy-shares", "setting the copy's payload changed the original", sc);
        e.setPayload(q);
        rep.check(c.getPayload().equals("changed"), "copy-shares", "setting the payload changed the copy", sc);
        NamedStateEvent<Object> d = new NamedStateEvent<>(new OtherEvent(a, q));
        rep.check(Objects.equals(d.getName(), a) && d.getPayload() == q, "copy-other", "copy of a user-defined event differs", sc);
        rep.check(Objects.equals(s.getName(), a) && Objects.equals(t.getName(), b), "name", "name changed", sc);
        rep.eval(sc);
      }
      NamedState<Object, Object> s = U.st(nm.get(i));
      int h = s.hashCode();
      s.appendEntryActions((e, m) -> { });
      s.onEntry(U.ev("x"), null);
      rep.check(s.hashCode() == h && s.equals(s) && Objects.equals(s.getName(), nm.get(i)), "hash-stable", "hash or name changed", "name <" + nm.get(i) + ">");
    }
  }

  static void pair(Rep rep, String sc, Object a, Object b, boolean eq) {
    try {
      rep.check(a.equals(b) == eq, "equals", "equals is " + a.equals(b), sc);
      rep.check(b.equals(a) == eq, "equals", "equals (swapped) is " + b.equals(a), sc);
      rep.check(!eq || a.hashCode() == b.hashCode(), "hash", "equal objects have different hash codes", sc);
      rep.check(a.equals(a) && !a.equals(null), "reflexive", "not equal to itself or equal to null", sc);
      rep.check(a.hashCode() == a.hashCode(), "hash-twice", "hash code varies", sc);
    } catch (Throwable t) {
      rep.fail("throws", "threw " + t, sc);
    }
  }
}
