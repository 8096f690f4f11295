import java.io.*;
import java.nio.file.*;
import java.util.*;
import org.objectweb.asm.*;
import org.objectweb.asm.tree.*;
import org.objectweb.asm.util.Printer;

/** Writes the bytecode of every class file below the given folders as JSON (one object, class name -> class). */
public class Dump {
  static StringBuilder sb = new StringBuilder();
  static Set<String> refs = new TreeSet<>();

  static String q(String s) {
    if (s == null) return "null";
    StringBuilder b = new StringBuilder("\"");
    for (char c : s.toCharArray()) {
      if (c == '"' || c == '\\') b.append('\\').append(c);
      else if (c < 32 || c > 126) b.append(String.format("\\u%04x", (int) c));
      else b.append(c);
    }
    return b.append('"').toString();
  }

  static String list(List<String> l) { return "[" + String.join(",", l) + "]"; }

  static String strs(List<String> l) {
    List<String> r = new ArrayList<>();
    if (l != null) for (String s : l) r.add(q(s));
    return list(r);
  }

  static String handle(Handle h) {
    return list(List.of(q("H"), "" + h.getTag(), q(h.getOwner()), q(h.getName()), q(h.getDesc())));
  }

  static String cst(Object o) {
    if (o == null) return "null";
    if (o instanceof String) return list(List.of(q("S"), q((String) o)));
    if (o instanceof Integer) return list(List.of(q("I"), o.toString()));
    if (o instanceof Long) return list(List.of(q("J"), o.toString()));
    if (o instanceof Float) return list(List.of(q("F"), q(o.toString())));
    if (o instanceof Double) return list(List.of(q("D"), q(o.toString())));
    if (o instanceof Type) return list(List.of(q("T"), q(((Type) o).getDescriptor())));
    if (o instanceof Handle) return handle((Handle) o);
    return list(List.of(q("?"), q(o.toString())));
  }

  static void ref(String n) {
    if (n == null) return;
    while (n.startsWith("[")) n = n.substring(1);
    if (n.startsWith("L") && n.endsWith(";")) n = n.substring(1, n.length() - 1);
    if (n.length() > 1) refs.add(n);
  }

  static String method(MethodNode m) {
    List<AbstractInsnNode> ins = new ArrayList<>();
    Map<LabelNode, Integer> lab = new IdentityHashMap<>();
    Map<Integer, Integer> lines = new TreeMap<>();
    for (AbstractInsnNode n : m.instructions) {
      if (n instanceof LabelNode) lab.put((LabelNode) n, ins.size());
      else if (n instanceof LineNumberNode) lines.put(ins.size(), ((LineNumberNode) n).line);
      else if (n instanceof FrameNode) { }
      else ins.add(n);
    }
    List<String> out = new ArrayList<>();
    for (AbstractInsnNode n : ins) {
      List<String> a = new ArrayList<>();
      a.add(q(Printer.OPCODES[n.getOpcode()]));
      if (n instanceof IntInsnNode) a.add("" + ((IntInsnNode) n).operand);
      else if (n instanceof VarInsnNode) a.add("" + ((VarInsnNode) n).var);
      else if (n instanceof TypeInsnNode) { a.add(q(((TypeInsnNode) n).desc)); ref(((TypeInsnNode) n).desc); }
      else if (n instanceof FieldInsnNode) { FieldInsnNode f = (FieldInsnNode) n; a.add(q(f.owner)); a.add(q(f.name)); a.add(q(f.desc)); ref(f.owner); }
      else if (n instanceof MethodInsnNode) { MethodInsnNode f = (MethodInsnNode) n; a.add(q(f.owner)); a.add(q(f.name)); a.add(q(f.desc)); ref(f.owner); for (Type t : Type.getArgumentTypes(f.desc)) ref(t.getDescriptor()); ref(Type.getReturnType(f.desc).getDescriptor()); }
      else if (n instanceof InvokeDynamicInsnNode) {
        InvokeDynamicInsnNode f = (InvokeDynamicInsnNode) n;
        a.add(q(f.name)); a.add(q(f.desc)); a.add(handle(f.bsm));
        List<String> b = new ArrayList<>();
        for (Object o : f.bsmArgs) b.add(cst(o));
        a.add(list(b));
      } else if (n instanceof JumpInsnNode) a.add("" + lab.get(((JumpInsnNode) n).label));
      else if (n instanceof LdcInsnNode) a.add(cst(((LdcInsnNode) n).cst));
      else if (n instanceof IincInsnNode) { a.add("" + ((IincInsnNode) n).var); a.add("" + ((IincInsnNode) n).incr); }
      else if (n instanceof TableSwitchInsnNode) {
        TableSwitchInsnNode t = (TableSwitchInsnNode) n;
        List<String> b = new ArrayList<>();
        int k = t.min;
        for (LabelNode l : t.labels) b.add("[" + (k++) + "," + lab.get(l) + "]");
        a.add(list(b)); a.add("" + lab.get(t.dflt));
      } else if (n instanceof LookupSwitchInsnNode) {
        LookupSwitchInsnNode t = (LookupSwitchInsnNode) n;
        List<String> b = new ArrayList<>();
        for (int i = 0; i < t.labels.size(); i++) b.add("[" + t.keys.get(i) + "," + lab.get(t.labels.get(i)) + "]");
        a.add(list(b)); a.add("" + lab.get(t.dflt));
      } else if (n instanceof MultiANewArrayInsnNode) { a.add(q(((MultiANewArrayInsnNode) n).desc)); a.add("" + ((MultiANewArrayInsnNode) n).dims); }
      out.add(list(a));
    }
    List<String> tc = new ArrayList<>();
    for (TryCatchBlockNode t : m.tryCatchBlocks) {
      tc.add("[" + lab.get(t.start) + "," + lab.get(t.end) + "," + lab.get(t.handler) + "," + q(t.type) + "]");
      ref(t.type);
    }
    List<String> lv = new ArrayList<>();
    if (m.localVariables != null) for (LocalVariableNode v : m.localVariables)
      lv.add("[" + v.index + "," + q(v.name) + "," + q(v.desc) + "," + lab.get(v.start) + "," + lab.get(v.end) + "]");
    List<String> ln = new ArrayList<>();
    lines.forEach((k, v) -> ln.add("[" + k + "," + v + "]"));
    return "{\"name\":" + q(m.name) + ",\"desc\":" + q(m.desc) + ",\"access\":" + m.access + ",\"sig\":" + q(m.signature)
        + ",\"maxLocals\":" + m.maxLocals + ",\"ins\":" + list(out) + ",\"tc\":" + list(tc) + ",\"lv\":" + list(lv) + ",\"lines\":" + list(ln) + "}";
  }

  static String clazz(ClassNode c) {
    List<String> fs = new ArrayList<>();
    for (FieldNode f : c.fields)
      fs.add("{\"name\":" + q(f.name) + ",\"desc\":" + q(f.desc) + ",\"sig\":" + q(f.signature) + ",\"access\":" + f.access + ",\"value\":" + cst(f.value) + "}");
    List<String> ms = new ArrayList<>();
    for (MethodNode m : c.methods) ms.add(method(m));
    ref(c.superName);
    for (String i : c.interfaces) ref(i);
    return "{\"name\":" + q(c.name) + ",\"super\":" + q(c.superName) + ",\"interfaces\":" + strs(c.interfaces) + ",\"access\":" + c.access
        + ",\"source\":" + q(c.sourceFile) + ",\"fields\":" + list(fs) + ",\"methods\":" + list(ms) + "}";
  }

  static void hier(Class<?> c, Map<String, String> out) {
    String n = c.getName().replace('.', '/');
    if (out.containsKey(n)) return;
    List<String> is = new ArrayList<>();
    for (Class<?> i : c.getInterfaces()) is.add(i.getName().replace('.', '/'));
    out.put(n, "{\"super\":" + (c.getSuperclass() == null ? "null" : q(c.getSuperclass().getName().replace('.', '/'))) + ",\"interfaces\":" + strs(is) + ",\"iface\":" + c.isInterface() + "}");
    if (c.getSuperclass() != null) hier(c.getSuperclass(), out);
    for (Class<?> i : c.getInterfaces()) hier(i, out);
  }

  public static void main(String[] av) throws Exception {
    List<String> cls = new ArrayList<>();
    Set<String> own = new HashSet<>();
    for (int i = 1; i < av.length; i++) {
      List<Path> ps = new ArrayList<>();
      try (var s = Files.walk(Paths.get(av[i]))) { s.filter(p -> p.toString().endsWith(".class")).sorted().forEach(ps::add); }
      for (Path p : ps) {
        ClassNode c = new ClassNode();
        new ClassReader(Files.readAllBytes(p)).accept(c, ClassReader.SKIP_FRAMES);
        own.add(c.name);
        cls.add(q(c.name) + ":" + clazz(c));
      }
    }
    Map<String, String> h = new TreeMap<>();
    for (String x : List.of("java/lang/NullPointerException", "java/lang/ClassCastException", "java/lang/ArrayIndexOutOfBoundsException",
        "java/lang/IndexOutOfBoundsException", "java/lang/ArithmeticException", "java/lang/IllegalStateException", "java/lang/Error",
        "java/lang/InterruptedException", "java/util/NoSuchElementException", "java/lang/UnsupportedOperationException",
        "java/util/ArrayList", "java/util/HashMap", "java/util/concurrent/ConcurrentHashMap", "java/util/concurrent/ConcurrentLinkedQueue",
        "java/util/concurrent/ExecutorService", "java/util/LinkedHashMap", "java/util/ListIterator")) refs.add(x);
    for (String r : refs) if (!own.contains(r)) {
      try { hier(Class.forName(r.replace('/', '.'), false, Dump.class.getClassLoader()), h); } catch (Throwable t) { }
    }
    List<String> hs = new ArrayList<>();
    h.forEach((k, v) -> hs.add(q(k) + ":" + v));
    try (Writer w = Files.newBufferedWriter(Paths.get(av[0]))) {
      w.write("{\"classes\":{" + String.join(",\n", cls) + "},\n\"hier\":{" + String.join(",\n", hs) + "}}");
    }
  }
}
