package vh;

public final class C02 {
  static String proj(String t) {
    if (t.startsWith("S ")) return t.replaceAll("ended=\\w+ ", "").replaceAll(" q=.*", "");
    return t.startsWith("B ") || t.startsWith("E ") || t.startsWith("X ") || t.startsWith("N ") || t.startsWith("U ") || t.startsWith("EXC") ? t : null;
  }
  public static void seq(Rep rep) {
    int n = rep.thorough ? 600000 : 60000;
    World.Gen g = new World.Gen(rep.seed);
    g.pTrans = 25; g.pNoop = 35; g.pEnd = 3; g.pStop = 0; g.pEnds = 5;
    g.actKinds = new int[] {World.THROW_RT, World.THROW_CHECKED, World.THROW_ERR, World.FIRE, World.MUTATE};
    World.drive(rep, "unmapped and no-op events", g, C02::proj, n);
  }
}
