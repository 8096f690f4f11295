package model;
import java.util.*;
import java.util.function.*;

public class MOpt {
  private Object v;
  MOpt(Object v) { this.v = v; }
  void set(Object o) { v = o; }
  public boolean isPresent() { return v != null; }
  public boolean isEmpty() { return v == null; }
  public Object get() { if (v == null) throw new NoSuchElementException(); return v; }
  public Object orElse(Object o) { return v != null ? v : o; }
  public Object orElseGet(Supplier s) { return v != null ? v : s.get(); }
  public Object orElseThrow() { return get(); }
  public Object orElseThrow(Supplier s) throws Throwable { if (v == null) throw (Throwable) s.get(); return v; }
  public MOpt map(Function f) { return v == null ? this : new MOpt(f.apply(v)); }
  public MOpt flatMap(Function f) { return v == null ? this : (MOpt) f.apply(v); }
  public MOpt filter(Predicate p) { return v == null || p.test(v) ? this : new MOpt(null); }
  public void ifPresent(Consumer c) { if (v != null) c.accept(v); }
  public void ifPresentOrElse(Consumer c, Runnable r) { if (v != null) c.accept(v); else r.run(); }
}
