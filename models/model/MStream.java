package model;
import java.util.*;
import java.util.function.*;

/** Lazy sequential stream: a source iterator and a chain of stages. */
public class MStream {
  static final int FILTER = 1, MAP = 2, FLAT = 3, PEEK = 4;
  final Iterator src; final MStream up; final int op; final Object f;
  MStream(Iterator src, MStream up, int op, Object f) { this.src = src; this.up = up; this.op = op; this.f = f; }

  interface Sink { boolean take(Object o); }   // false: stop

  static Sink wrap(int op, Object f, Sink down) {
    if (op == FILTER) return o -> ((Predicate) f).test(o) ? down.take(o) : true;
    if (op == MAP) return o -> down.take(((Function) f).apply(o));
    if (op == FLAT) return o -> { MStream s = (MStream) ((Function) f).apply(o); return s == null ? true : s.run(down); };
    return o -> { ((Consumer) f).accept(o); return down.take(o); };
  }

  boolean run(Sink down) {
    MStream p = this;
    Sink s = down;
    while (p.up != null) { s = wrap(p.op, p.f, s); p = p.up; }
    Iterator i = p.src;
    while (i.hasNext()) if (!s.take(i.next())) return false;
    return true;
  }

  public MStream filter(Predicate p) { return new MStream(null, this, FILTER, p); }
  public MStream map(Function g) { return new MStream(null, this, MAP, g); }
  public MStream flatMap(Function g) { return new MStream(null, this, FLAT, g); }
  public MStream peek(Consumer g) { return new MStream(null, this, PEEK, g); }
  public MStream sequential() { return this; }
  public MStream unordered() { return this; }
  public void close() { }
  public void forEach(Consumer c) { run(o -> { c.accept(o); return true; }); }
  public void forEachOrdered(Consumer c) { forEach(c); }
  public boolean anyMatch(Predicate p) { return !run(o -> !p.test(o)); }
  public boolean allMatch(Predicate p) { return run(o -> p.test(o)); }
  public boolean noneMatch(Predicate p) { return run(o -> !p.test(o)); }
  public MOpt findFirst() { MOpt r = new MOpt(null); run(o -> { r.set(o); return false; }); return r; }
  public MOpt findAny() { return findFirst(); }
  public List toList() { ArrayList l = new ArrayList(); forEach(l::add); return l; }
  public Object collect(Object c) { Collection l = ((MColl) c).make(); forEach(l::add); return l; }
  public MStream distinct() { LinkedHashSet l = new LinkedHashSet(); forEach(l::add); return new MStream(l.iterator(), null, 0, null); }
  public long count() { long n = 0; Iterator i = toList().iterator(); while (i.hasNext()) { i.next(); n++; } return n; }
  public Object[] toArray() { return toList().toArray(); }
  public Iterator iterator() { return toList().iterator(); }
}
