package vh;

public final class C01 {
  static String proj(String t) {
    if (t.startsWith("S ")) return t.replaceAll("ended=\\w+ ", "").replaceAll(" q=.*", "");
    return (t.startsWith("B ") || t.startsWith("E ") || t.startsWith("X ") || t.startsWith("N ")) ? t : null;
  }
  public static void seq(Rep rep) {
    int n = rep.thorough ? 600000 : 60000;
    World.Gen g = new World.Gen(rep.seed);
    g.pTrans = 80; g.pNoop = 4; g.pEnd = 4; g.pStop = 0; g.pEnds = 0;
    g.actKinds = new int[] {World.THROW_RT, World.THROW_CHECKED, World.THROW_ERR, World.FIRE, World.MUTATE};
    World.drive(rep, "transitions", g, C01::proj, n);
  }
}
