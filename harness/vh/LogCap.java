package vh;

import java.util.*;
import org.apache.logging.log4j.*;
import org.apache.logging.log4j.core.*;
import org.apache.logging.log4j.core.appender.AbstractAppender;
import org.apache.logging.log4j.core.config.Configuration;
import org.apache.logging.log4j.core.config.Property;

/** collects what is logged */
final class LogCap {
  static final List<String[]> log = Collections.synchronizedList(new ArrayList<>());

  static void off() {
    LoggerContext ctx = (LoggerContext) LogManager.getContext(false);
    ctx.getConfiguration().getRootLogger().setLevel(Level.OFF);
    ctx.updateLoggers();
  }

  static void install() {
    LoggerContext ctx = (LoggerContext) LogManager.getContext(false);
    Configuration cfg = ctx.getConfiguration();
    Appender a = new AbstractAppender("cap", null, null, true, Property.EMPTY_ARRAY) {
      @Override public void append(LogEvent e) { log.add(new String[] {e.getLevel().name(), e.getMessage().getFormattedMessage(), e.getLoggerName()}); }
    };
    a.start();
    cfg.addAppender(a);
    var root = cfg.getRootLogger();
    for (String n : new ArrayList<>(root.getAppenders().keySet())) root.removeAppender(n);
    root.addAppender(a, Level.ALL, null);
    root.setLevel(Level.ALL);
    ctx.updateLoggers();
  }
}
