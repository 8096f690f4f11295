package vh;

import com.webotech.statemachine.*;
import com.webotech.statemachine.api.*;
import java.io.*;
import java.util.*;

public final class C15 {
  static final class MyEx extends Exception { }
  static final class MyThrowable extends Throwable { }

  static List<Throwable> throwables() {
    return new ArrayList<>(Arrays.asList(null, new RuntimeException("r"), new Exception("e"), new IOException("i"), new IllegalStateException("s"), new NullPointerException(), new InterruptedException("x"),
        new MyEx(), new java.util.concurrent.CancellationException(), new java.util.concurrent.TimeoutException(), new ClassCastException(), new UnsupportedOperationException(), new IllegalArgumentException(),
        new SecurityException(), new CloneNotSupportedException(), new UncheckedIOException(new IOException()), new Error("err"), new AssertionError("a"), new StackOverflowError(), new OutOfMemoryError("fake"), new LinkageError(), new MyThrowable(), new Throwable("t"),
        // what is wrapped is not what is thrown
        new AssertionError("a", new IllegalStateException()), new ExceptionInInitializerError(new Exception()), new Error(new InterruptedException()), new Throwable(new RuntimeException()),
        new RuntimeException(new Error()), new Exception(new RuntimeException()), new java.util.concurrent.ExecutionException(new Error()), new java.lang.reflect.InvocationTargetException(new IOException()),
        new java.lang.reflect.UndeclaredThrowableException(new IOException())));
  }

  public static void seq(Rep rep) {
    rep.family("action and handler outcomes");
    for (Throwable a : throwables()) for (Throwable h : throwables()) for (int ev = 0; ev < 4; ev++) for (int mm = 0; mm < 2; mm++) {
      String sc = "action throws " + a + ", handler throws " + h + ", event " + ev + " machine " + mm;
      rep.begin(sc);
      List<Object[]> ac = new ArrayList<>(), hc = new ArrayList<>();
      NamedStateEvent<Object> e = ev == 0 ? null : ev == 1 ? U.ev("x") : ev == 2 ? U.ev(null) : U.ev("y", "p");
      GenericStateMachine<Object, Object> m = mm == 0 ? null : U.machine(new U.Strat());
      boolean[] intr = {false};
      HandleExceptionAction<Object, Object> x = new HandleExceptionAction<>((v, s) -> { ac.add(new Object[] {v, s}); if (a != null) World.<RuntimeException>sneaky(a); },
          (v, s, t) -> { hc.add(new Object[] {v, s, t}); intr[0] = Thread.currentThread().isInterrupted(); if (h != null) World.<RuntimeException>sneaky(h); });
      for (int rpt = 1; rpt <= 3; rpt++) {
        Throwable t = U.thrown(() -> x.execute(e, m));
        boolean exc = a instanceof Exception;
        Throwable want = a == null ? null : exc ? h : a;
        rep.check(t == want, "thrown", "threw " + t + " expected " + want, sc);
        rep.check(ac.size() == rpt && ac.get(rpt - 1)[0] == e && ac.get(rpt - 1)[1] == m, "action", "action calls " + ac.size(), sc);
        rep.check(hc.size() == (exc ? rpt : 0), "handler", "handler calls " + hc.size(), sc);
        if (exc && hc.size() == rpt) rep.check(hc.get(rpt - 1)[0] == e && hc.get(rpt - 1)[1] == m && hc.get(rpt - 1)[2] == a, "handler-args", "handler arguments", sc);
      }
      rep.eval(sc);
    }
  }
}
