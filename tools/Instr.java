import java.io.*;
import java.nio.file.*;
import java.util.*;
import org.objectweb.asm.*;

/** Copies the classes of a folder, adding scheduling points for the cooperative scheduler vh.Sched. */
public class Instr {
  static final String S = "vh/Sched";

  public static void main(String[] a) throws Exception {
    Path in = Paths.get(a[0]), out = Paths.get(a[1]);
    List<Path> fs = new ArrayList<>();
    try (var s = Files.walk(in)) { s.filter(f -> f.toString().endsWith(".class")).forEach(fs::add); }
    Set<String> finals = new HashSet<>();
    for (Path f : fs) new ClassReader(Files.readAllBytes(f)).accept(new ClassVisitor(Opcodes.ASM9) {
      String cn;
      @Override public void visit(int v, int acc, String n, String sig, String sup, String[] itf) { cn = n; }
      @Override public FieldVisitor visitField(int acc, String n, String d, String sig, Object v) {
        if ((acc & Opcodes.ACC_FINAL) != 0) finals.add(cn + "." + n);
        return null;
      }
    }, 0);
    for (Path f : fs) {
      ClassReader r = new ClassReader(Files.readAllBytes(f));
      ClassWriter w = new ClassWriter(r, ClassWriter.COMPUTE_MAXS);
      r.accept(new ClassVisitor(Opcodes.ASM9, w) {
        String cn;
        @Override public void visit(int v, int acc, String n, String sig, String sup, String[] itf) {
          cn = n;
          super.visit(v, acc, n, sig, sup, itf);
        }
        @Override public MethodVisitor visitMethod(int acc, String n, String d, String sig, String[] ex) {
          boolean sync = (acc & Opcodes.ACC_SYNCHRONIZED) != 0 && !n.equals("<init>");
          int acc2 = acc & ~Opcodes.ACC_SYNCHRONIZED;
          MethodVisitor mv = super.visitMethod(sync ? acc2 : acc, n, d, sig, ex);
          boolean st = (acc & Opcodes.ACC_STATIC) != 0;
          boolean init = n.equals("<init>") || n.equals("<clinit>");
          return new MethodVisitor(Opcodes.ASM9, mv) {
            Label from, to;
            void monitor(boolean enter) {
              if (st) super.visitLdcInsn(Type.getObjectType(cn)); else super.visitVarInsn(Opcodes.ALOAD, 0);
              super.visitMethodInsn(Opcodes.INVOKESTATIC, S, enter ? "enter" : "exit", "(Ljava/lang/Object;)V", false);
            }
            void point() { super.visitMethodInsn(Opcodes.INVOKESTATIC, S, "point", "()V", false); }
            @Override public void visitCode() {
              super.visitCode();
              if (sync) {
                monitor(true);
                from = new Label();
                to = new Label();
                super.visitLabel(from);
              }
            }
            @Override public void visitInsn(int op) {
              if (op == Opcodes.MONITORENTER || op == Opcodes.MONITOREXIT) {
                super.visitMethodInsn(Opcodes.INVOKESTATIC, S, op == Opcodes.MONITORENTER ? "enter" : "exit", "(Ljava/lang/Object;)V", false);
                return;
              }
              if (sync && op >= Opcodes.IRETURN && op <= Opcodes.RETURN) monitor(false);
              super.visitInsn(op);
            }
            @Override public void visitMaxs(int s, int l) {
              if (sync) {
                super.visitLabel(to);
                Label h = new Label();
                super.visitTryCatchBlock(from, to, h, null);
                super.visitLabel(h);
                monitor(false);
                super.visitInsn(Opcodes.ATHROW);
              }
              super.visitMaxs(s, l);
            }
            @Override public void visitFieldInsn(int op, String o, String fn, String fd) {
              if (!finals.contains(o + "." + fn) && o.startsWith("com/webotech/") && !init) point();
              super.visitFieldInsn(op, o, fn, fd);
            }
            @Override public void visitMethodInsn(int op, String o, String mn, String md, boolean itf) {
              if (o.startsWith("java/util/concurrent/locks/") && (mn.equals("lock") || mn.equals("unlock")) && md.equals("()V")) {
                super.visitMethodInsn(Opcodes.INVOKESTATIC, S, mn.equals("lock") ? "enter" : "exit", "(Ljava/lang/Object;)V", false);
                return;
              }
              if (o.equals("java/util/concurrent/CountDownLatch") && mn.equals("await")) {
                super.visitMethodInsn(Opcodes.INVOKESTATIC, S, "await", md.replace("(", "(Ljava/util/concurrent/CountDownLatch;"), false);
                return;
              }
              if (o.equals("java/util/concurrent/Executors") && mn.equals("newSingleThreadExecutor")) {
                super.visitMethodInsn(op, S, "single", md, false);
                return;
              }
              boolean p = (o.startsWith("java/util/concurrent/") || o.startsWith("java/util/Queue") || o.startsWith("java/util/Map")
                  || o.startsWith("java/util/Collection") || o.startsWith("java/util/Iterator") || o.startsWith("java/util/stream")
                  || o.startsWith("com/webotech/statemachine/api/State") || o.startsWith("com/webotech/statemachine/UnexpectedFlow"))
                  && !mn.equals("<init>") && !init;
              if (p) point();
              super.visitMethodInsn(op, o, mn, md, itf);
            }
          };
        }
      }, 0);
      Path t = out.resolve(in.relativize(f));
      Files.createDirectories(t.getParent());
      Files.write(t, w.toByteArray());
    }
  }
}
