package vh;

import java.util.*;

/** Counts what was run, keeps samples, collects failures. */
public final class Rep {
  public final String id, tier;
  public final long seed;
  public long evals;
  public final Set<Integer> distinct = new HashSet<>();
  public final List<String> samples = new ArrayList<>();
  public final List<String[]> fails = new ArrayList<>();
  final Set<String> kinds = new HashSet<>();
  final long deadline;
  public final boolean thorough;
  /** names found as constants in the code, and in the solver's counterexample */
  public final List<String> names = new ArrayList<>();
  public final List<Integer> nums = new ArrayList<>();
  public final Map<String, Long> families = new TreeMap<>();
  String family = "-";

  public Rep(String id, String tier, long seed, long budgetMs) {
    this.id = id;
    this.tier = tier;
    this.seed = seed;
    this.thorough = tier.equals("thorough");
    this.deadline = System.currentTimeMillis() + budgetMs;
  }

  public void family(String f) { family = f; }

  public boolean late() { return System.currentTimeMillis() > deadline || fails.size() >= 5; }

  public volatile String current = "-";
  public volatile long progress = System.currentTimeMillis();

  /** the scenario about to run (reported when it never finishes) */
  public void begin(String scenario) {
    current = scenario;
    progress = System.currentTimeMillis();
  }

  public void eval(String scenario) {
    progress = System.currentTimeMillis();
    evals++;
    families.merge(family, 1L, Long::sum);
    if (distinct.size() < 500000 && distinct.add(scenario.hashCode()) && (samples.size() < 3 || evals % 4001 == 0 && samples.size() < 8)) {
      samples.add(scenario.length() > 400 ? scenario.substring(0, 400) + "..." : scenario);
    }
  }

  /** key: short stable name of what fails (for known findings) */
  public void fail(String key, String what, String scenario) {
    if (kinds.add(key)) fails.add(new String[] {key, what, scenario});
  }

  public void check(boolean ok, String key, String what, String scenario) {
    if (!ok) fail(key, what, scenario);
  }

  static String q(String s) {
    StringBuilder b = new StringBuilder("\"");
    for (char c : s.toCharArray()) {
      if (c == '"' || c == '\\') b.append('\\').append(c);
      else if (c < 32 || c > 126) b.append(String.format("\\u%04x", (int) c));
      else b.append(c);
    }
    return b.append('"').toString();
  }

  public String json() {
    StringBuilder b = new StringBuilder("{\"evals\":" + evals + ",\"distinct\":" + distinct.size() + ",\"samples\":[");
    for (int i = 0; i < samples.size(); i++) b.append(i > 0 ? "," : "").append(q(samples.get(i)));
    b.append("],\"families\":{");
    int n = 0;
    for (var e : families.entrySet()) b.append(n++ > 0 ? "," : "").append(q(e.getKey())).append(":").append(e.getValue());
    b.append("},\"fails\":[");
    for (int i = 0; i < fails.size(); i++) {
      String[] f = fails.get(i);
      b.append(i > 0 ? "," : "").append("{\"key\":").append(q(f[0])).append(",\"what\":").append(q(f[1])).append(",\"scenario\":").append(q(f[2])).append("}");
    }
    return b.append("]}").toString();
  }
}
