package vh;

import java.nio.file.*;
import java.util.*;

/** vh.Main ID seq|conc tier seed budgetMs out [hints-file] */
public final class Main {
  public static void main(String[] a) throws Exception {
    Rep r = new Rep(a[0], a[2], Long.parseLong(a[3]), Long.parseLong(a[4]));
    if (a.length > 6 && Files.exists(Paths.get(a[6]))) {
      for (String l : Files.readAllLines(Paths.get(a[6]))) {
        if (l.startsWith("s:")) {
          StringBuilder b = new StringBuilder();
          for (String p : l.substring(2).split(",")) if (!p.isEmpty()) b.append((char) Integer.parseInt(p));
          r.names.add(b.toString());
        } else if (l.startsWith("i:")) r.nums.add(Integer.parseInt(l.substring(2)));
      }
    }
    LogCap.off();
    r.progress = System.currentTimeMillis();
    Thread dog = new Thread(() -> {
      while (true) {
        try { Thread.sleep(500); } catch (InterruptedException e) { return; }
        if (System.currentTimeMillis() - r.progress > 40000) {
          r.fail("does-not-terminate", "the scenario did not finish within 40 s", r.current);
          try { Files.writeString(Paths.get(a[5]), r.json()); } catch (Exception e) { }
          Runtime.getRuntime().halt(0);
        }
      }
    });
    dog.setDaemon(true);
    dog.start();
    try {
      Class<?> c = Class.forName("vh." + a[0]);
      c.getMethod(a[1], Rep.class).invoke(null, r);
    } catch (java.lang.reflect.InvocationTargetException e) {
      Throwable t = e.getCause();
      java.io.StringWriter w = new java.io.StringWriter();
      t.printStackTrace(new java.io.PrintWriter(w));
      String s = w.toString();
      r.fail("harness-exception", "unexpected " + t, s.length() > 1500 ? s.substring(0, 1500) : s);
    } catch (NoSuchMethodException e) {
      // nothing in this mode
    }
    Files.writeString(Paths.get(a[5]), r.json());
    Runtime.getRuntime().halt(0);
  }
}
