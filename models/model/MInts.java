package model;
import java.util.*;
import java.util.function.*;

/** the numbers from lo to hi - 1 */
public class MInts {
  final int lo, hi;
  MInts(int lo, int hi) { this.lo = lo; this.hi = hi; }
  public void forEach(IntConsumer c) { for (int i = lo; i < hi; i++) c.accept(i); }
  public void forEachOrdered(IntConsumer c) { forEach(c); }
  public boolean anyMatch(IntPredicate p) { for (int i = lo; i < hi; i++) if (p.test(i)) return true; return false; }
  public boolean allMatch(IntPredicate p) { for (int i = lo; i < hi; i++) if (!p.test(i)) return false; return true; }
  public boolean noneMatch(IntPredicate p) { return !anyMatch(p); }
  public MStream mapToObj(IntFunction f) {
    ArrayList l = new ArrayList();
    for (int i = lo; i < hi; i++) l.add(f.apply(i));
    return new MStream(l.iterator(), null, 0, null);
  }
}
