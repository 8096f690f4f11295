package vh;

import com.webotech.statemachine.*;
import com.webotech.statemachine.api.*;
import com.webotech.statemachine.strategy.*;
import java.util.*;

/** shared pieces */
final class U {
  static class Ufl implements UnexpectedFlowListener<Object, Object> {
    final List<Object[]> exc = new ArrayList<>(), after = new ArrayList<>(), before = new ArrayList<>();
    public void onExceptionDuringEventProcessing(StateEvent<Object> e, StateMachine<Object, Object> m, Thread t, Exception x) { exc.add(new Object[] {e, m, t, x}); }
    public void onEventAfterMachineEnd(StateEvent<Object> e, StateMachine<Object, Object> m) { after.add(new Object[] {e, m}); }
    public void onEventBeforeMachineStart(StateEvent<Object> e, StateMachine<Object, Object> m) { before.add(new Object[] {e, m}); }
  }

  static final class Strat implements EventProcessingStrategy<Object, Object> {
    Map<State<Object, Object>, Map<StateEvent<Object>, State<Object, Object>>> states;
    int sets;
    final List<Object[]> events = new ArrayList<>();
    final Ufl ufl = new Ufl();
    public void processEvent(StateEvent<Object> e, GenericStateMachine<Object, Object> m) { events.add(new Object[] {e, m}); }
    public void setStates(Map<State<Object, Object>, Map<StateEvent<Object>, State<Object, Object>>> s) { states = s; sets++; }
    public int getEventQueueSize() { return 7; }
    public UnexpectedFlowListener<Object, Object> getUnexpectedFlowListener() { return ufl; }
  }

  static NamedStateEvent<Object> ev(String n) { return new NamedStateEvent<>(n); }
  static NamedStateEvent<Object> ev(String n, Object p) { NamedStateEvent<Object> e = new NamedStateEvent<>(n); e.setPayload(p); return e; }
  static NamedState<Object, Object> st(String n) { return new NamedState<>(n); }
  static EventProcessingStrategyFactory.Config<Object, Object> cfg() { return new EventProcessingStrategyFactory.Config<>(); }
  static GenericStateMachine<Object, Object> machine(EventProcessingStrategy<Object, Object> s) {
    return new GenericStateMachine.Builder<Object, Object>().setEventProcessingStrategy(s).build();
  }

  static Throwable thrown(Runnable r) {
    try { r.run(); return null; } catch (Throwable t) { return t; }
  }

  static List<String> names(Rep rep) {
    List<String> l = new ArrayList<>(Arrays.asList(null, "", "a", new String("a"), "b", "Aa", "BB", "AaAa", "BBBB", "A", " a", "a ", "_END_", "_immediate_", "_NOOP_", "_UNINITIALISED_",
        "start", "stop", "null", "a very long name that is longer than any buffer one would expect to see here 0123456789", "\u00e4\u20ac", "%s", "{}", "a-0", " _END_", "_NOOP_ ", "_NOOP_x", "_end_"));
    l.addAll(rep.names);
    return l;
  }
}
