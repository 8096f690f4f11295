package model;
import java.util.*;
import java.util.function.*;

/** Executable contracts of derived library methods: <Type>_<method>, receiver first. */
public class J {
  public static void Iterable_forEach(Iterable it, Consumer c) {
    Objects.requireNonNull(c);
    Iterator i = it.iterator();
    while (i.hasNext()) c.accept(i.next());
  }
  public static void Map_forEach(Map m, BiConsumer c) {
    Objects.requireNonNull(c);
    Iterator i = m.entrySet().iterator();
    while (i.hasNext()) { Map.Entry e = (Map.Entry) i.next(); c.accept(e.getKey(), e.getValue()); }
  }
  public static void Iterator_forEachRemaining(Iterator i, Consumer c) {
    Objects.requireNonNull(c);
    while (i.hasNext()) c.accept(i.next());
  }
  public static boolean Collection_addAll(Collection self, Collection o) {
    boolean r = false;
    Iterator i = o.iterator();
    while (i.hasNext()) if (self.add(i.next())) r = true;
    return r;
  }
  public static boolean Collections_addAll(Collection self, Object[] o) {
    boolean r = false;
    for (int i = 0; i < o.length; i++) if (self.add(o[i])) r = true;
    return r;
  }
  public static boolean Collection_containsModel(Collection self, Object o) {
    Iterator i = self.iterator();
    while (i.hasNext()) if (Objects.equals(o, i.next())) return true;
    return false;
  }
  public static boolean Map_containsValue(Map self, Object o) {
    Iterator i = self.values().iterator();
    while (i.hasNext()) if (Objects.equals(o, i.next())) return true;
    return false;
  }
  public static Object Map_computeIfAbsent(Map self, Object k, Function f) {
    Object v = self.get(k);
    if (v == null) { v = f.apply(k); if (v != null) self.put(k, v); }
    return v;
  }
  public static Object Map_replace(Map self, Object k, Object v) {
    if (self.containsKey(k)) return self.put(k, v);
    return null;
  }
  public static MStream Collection_stream(Collection c) { return new MStream(c.iterator(), null, 0, null); }
  public static MStream Arrays_stream(Object[] a) { return new MStream(Arrays.asList(a).iterator(), null, 0, null); }
  public static MStream Stream_ofNullable(Object o) { return new MStream((o == null ? List.of() : List.of(o)).iterator(), null, 0, null); }
  public static MStream Stream_empty() { return new MStream(List.of().iterator(), null, 0, null); }
  public static MStream Stream_concat(MStream a, MStream b) {
    ArrayList l = new ArrayList();
    a.forEach(l::add);
    b.forEach(l::add);
    return new MStream(l.iterator(), null, 0, null);
  }
  public static boolean Objects_isNull(Object o) { return o == null; }
  public static boolean Objects_nonNull(Object o) { return o != null; }
  public static Object Objects_requireNonNull(Object o) { if (o == null) throw new NullPointerException(); return o; }
  public static Object Objects_requireNonNull(Object o, Object msg) { if (o == null) throw new NullPointerException(); return o; }
  public static Object Objects_requireNonNullElse(Object o, Object d) { return o != null ? o : Objects_requireNonNull(d); }
  public static Object Objects_requireNonNullElseGet(Object o, Supplier d) { return o != null ? o : d.get(); }
  public static MOpt Optional_of(Object o) { return new MOpt(Objects_requireNonNull(o)); }
  public static MOpt Optional_ofNullable(Object o) { return new MOpt(o); }
  public static MOpt Optional_empty() { return new MOpt(null); }
  public static Predicate Predicate_negate(Predicate p) { return x -> !p.test(x); }
  public static Predicate Predicate_not(Predicate p) { return x -> !p.test(x); }
  public static Predicate Predicate_and(Predicate p, Predicate q) { return x -> p.test(x) && q.test(x); }
  public static Predicate Predicate_or(Predicate p, Predicate q) { return x -> p.test(x) || q.test(x); }
  public static Consumer Consumer_andThen(Consumer p, Consumer q) { return x -> { p.accept(x); q.accept(x); }; }
  public static Function Function_identity() { return x -> x; }
  public static String Objects_toString(Object o, String d) { return o == null ? d : String.valueOf(o); }
  public static int List_indexOf(List self, Object o) {
    for (int i = 0; i < self.size(); i++) if (Objects.equals(o, self.get(i))) return i;
    return -1;
  }
  public static Object Map_computeIfPresent(Map self, Object k, BiFunction f) {
    Object v = self.get(k);
    if (v == null) return null;
    Object r = f.apply(k, v);
    if (r == null) self.remove(k); else self.put(k, r);
    return r;
  }
  public static Object Map_compute(Map self, Object k, BiFunction f) {
    Object v = self.get(k), r = f.apply(k, v);
    if (r == null) self.remove(k); else self.put(k, r);
    return r;
  }
  public static Object Map_merge(Map self, Object k, Object o, BiFunction f) {
    Objects.requireNonNull(o);
    Object v = self.get(k), r = v == null ? o : f.apply(v, o);
    if (r == null) self.remove(k); else self.put(k, r);
    return r;
  }
  public static MColl Collectors_toList() { return new MColl(false); }
  public static MColl Collectors_toUnmodifiableList() { return new MColl(false); }
  public static MColl Collectors_toSet() { return new MColl(true); }
  public static MColl Collectors_toUnmodifiableSet() { return new MColl(true); }
  public static MInts IntStream_range(int a, int b) { return new MInts(a, b); }
  public static MInts IntStream_rangeClosed(int a, int b) { return new MInts(a, b + 1); }
}
