package model;
import java.util.*;

/** a collector into a list or a set */
public class MColl {
  final boolean set;
  MColl(boolean set) { this.set = set; }
  Collection make() { if (set) return new HashSet(); return new ArrayList(); }
}
