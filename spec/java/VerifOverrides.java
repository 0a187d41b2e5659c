import java.math.BigInteger;
import java.security.MessageDigest;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/** TLC evaluation of module Fr: BLS12-381 scalar field arithmetic on hex strings. */
public class VerifOverrides implements ITLCOverrides {
  public Class[] get() { return new Class[] { VerifOverrides.class }; }

  // the group order, or a small prime for exhaustive exploration of the protocol
  static final BigInteger R = System.getenv("VERIF_MODULUS") != null ? new BigInteger(System.getenv("VERIF_MODULUS")) : new BigInteger(
      "73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001", 16);

  static BigInteger p(Value v) { return new BigInteger(((StringValue) v).val.toString(), 16); }
  static StringValue s(BigInteger b) { return new StringValue(b.toString(16)); }
  static Value[] seq(Value v) { return ((TupleValue) v.toTuple()).elems; }

  @TLAPlusOperator(identifier = "FAdd", module = "Fr", warn = false)
  public static Value FAdd(StringValue a, StringValue b) {
    BigInteger x = p(a).add(p(b)); return s(x.compareTo(R) >= 0 ? x.subtract(R) : x);
  }
  @TLAPlusOperator(identifier = "FSub", module = "Fr", warn = false)
  public static Value FSub(StringValue a, StringValue b) {
    BigInteger x = p(a).subtract(p(b)); return s(x.signum() < 0 ? x.add(R) : x);
  }
  @TLAPlusOperator(identifier = "FMul", module = "Fr", warn = false)
  public static Value FMul(StringValue a, StringValue b) { return s(p(a).multiply(p(b)).mod(R)); }
  @TLAPlusOperator(identifier = "FNeg", module = "Fr", warn = false)
  public static Value FNeg(StringValue a) { return s(p(a).negate().mod(R)); }
  @TLAPlusOperator(identifier = "FInv", module = "Fr", warn = false)
  public static Value FInv(StringValue a) {
    BigInteger x = p(a); return x.signum() == 0 ? s(x) : s(x.modInverse(R));
  }
  @TLAPlusOperator(identifier = "FPow", module = "Fr", warn = false)
  public static Value FPow(StringValue a, IntValue k) { return s(p(a).modPow(BigInteger.valueOf(k.val), R)); }
  @TLAPlusOperator(identifier = "FOfInt", module = "Fr", warn = false)
  public static Value FOfInt(IntValue i) { return s(BigInteger.valueOf(i.val).mod(R)); }
  @TLAPlusOperator(identifier = "FRand", module = "Fr", warn = false)
  public static Value FRand(Value tag, Value i) throws Exception {
    MessageDigest d = MessageDigest.getInstance("SHA-512");
    d.update((tag.toString() + "|" + i.toString()).getBytes("UTF-8"));
    return s(new BigInteger(1, d.digest()).mod(R));
  }
  @TLAPlusOperator(identifier = "FBit", module = "Fr", warn = false)
  public static Value FBit(StringValue a, IntValue i) { return IntValue.gen(p(a).testBit(i.val) ? 1 : 0); }
  @TLAPlusOperator(identifier = "FDot", module = "Fr", warn = false)
  public static Value FDot(Value a, Value b) {
    Value[] x = seq(a), y = seq(b);
    if (x.length != y.length) throw new RuntimeException("FDot: length mismatch");
    BigInteger acc = BigInteger.ZERO;
    for (int i = 0; i < x.length; i++) acc = acc.add(p(x[i]).multiply(p(y[i])));
    return s(acc.mod(R));
  }
  @TLAPlusOperator(identifier = "FSum", module = "Fr", warn = false)
  public static Value FSum(Value a) {
    BigInteger acc = BigInteger.ZERO;
    for (Value v : seq(a)) acc = acc.add(p(v));
    return s(acc.mod(R));
  }
  @TLAPlusOperator(identifier = "FReduce", module = "Fr", warn = false)
  public static Value FReduce(StringValue a) { return s(p(a).mod(R)); }
  @TLAPlusOperator(identifier = "FMod", module = "Fr", warn = false)
  public static Value FMod(StringValue a, IntValue k) { return IntValue.gen(p(a).mod(BigInteger.valueOf(k.val)).intValue()); }
  @TLAPlusOperator(identifier = "FLt", module = "Fr", warn = false)
  public static Value FLt(StringValue a, StringValue b) {
    return p(a).compareTo(p(b)) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
  }

  // ---------------------------------------------------------------- module Grain
  @TLAPlusOperator(identifier = "GrainConstants", module = "Poseidon", warn = false)
  public static Value GrainConstants(IntValue w, IntValue rf, IntValue rp, IntValue num) {
    java.util.ArrayDeque<Integer> b = new java.util.ArrayDeque<>();
    int[][] parts = { {1, 2}, {1, 4}, {255, 12}, {w.val, 12}, {rf.val, 10}, {rp.val, 10} };
    for (int[] q : parts) for (int i = q[1] - 1; i >= 0; i--) b.addLast((q[0] >> i) & 1);
    for (int i = 0; i < 30; i++) b.addLast(1);
    int[] st = b.stream().mapToInt(Integer::intValue).toArray();
    int[] pos = {0};
    java.util.function.IntSupplier nxt = () -> {
      int o = pos[0];
      int x = st[(o + 62) % 80] ^ st[(o + 51) % 80] ^ st[(o + 38) % 80] ^ st[(o + 23) % 80] ^ st[(o + 13) % 80] ^ st[o];
      st[o] = x; pos[0] = (o + 1) % 80; return x;
    };
    for (int i = 0; i < 160; i++) nxt.getAsInt();
    Value[] out = new Value[num.val];
    for (int k = 0; k < num.val; ) {
      BigInteger v = BigInteger.ZERO;
      for (int i = 0; i < 255; i++) {
        while (nxt.getAsInt() == 0) nxt.getAsInt();
        v = v.shiftLeft(1).add(BigInteger.valueOf(nxt.getAsInt()));
      }
      if (v.compareTo(R) < 0) out[k++] = s(v);
    }
    return new TupleValue(out);
  }

  // ---------------------------------------------------------------- module Lin
  /** sum of coefficients times variables plus a constant */
  static final class Form {
    final java.util.TreeMap<Integer, BigInteger> t = new java.util.TreeMap<>();
    BigInteger c = BigInteger.ZERO;
    private BigInteger name;
    /** digest of "variable x equals this form"; a form that has been stored is never changed */
    BigInteger name(int x) {
      if (name == null) {
        try {
          MessageDigest d = MessageDigest.getInstance("SHA-256");
          d.update((x + "=" + c.toString(16)).getBytes("UTF-8"));
          for (java.util.Map.Entry<Integer, BigInteger> e : t.entrySet()) d.update(("+" + e.getKey() + "*" + e.getValue().toString(16)).getBytes("UTF-8"));
          name = new BigInteger(1, d.digest());
        } catch (Exception e) { throw new RuntimeException(e); }
      }
      return name;
    }
    void addScaled(BigInteger k, Form f) {
      for (java.util.Map.Entry<Integer, BigInteger> e : f.t.entrySet()) add(e.getKey(), k.multiply(e.getValue()).mod(R));
      c = c.add(k.multiply(f.c)).mod(R);
    }
    void add(int x, BigInteger k) {
      BigInteger o = t.get(x);
      BigInteger n = o == null ? k.mod(R) : o.add(k).mod(R);
      if (n.signum() == 0) t.remove(x); else t.put(x, n);
    }
  }
  /** a consistent system in solved form: pivot variable -> affine form over the free variables; the pivot is the
      highest variable of its row, so equal systems have equal solved forms and get the same name */
  static final class Sys {
    final java.util.HashMap<Integer, Form> piv; BigInteger sum = BigInteger.ZERO;
    Sys(java.util.HashMap<Integer, Form> p) { piv = p; }
    void put(int x, Form f) {
      Form o = piv.put(x, f);
      if (o != null) sum = sum.subtract(o.name(x));
      sum = sum.add(f.name(x));
    }
    String key() { return sum.signum() == 0 ? "e" : sum.toString(36); }
  }
  static final java.util.concurrent.ConcurrentHashMap<String, String> MEMO = new java.util.concurrent.ConcurrentHashMap<>();
  static final java.util.concurrent.ConcurrentHashMap<String, Sys> SYS = new java.util.concurrent.ConcurrentHashMap<>();
  static { SYS.put("e", new Sys(new java.util.HashMap<>())); }
  static Sys sys(Value h) {
    Sys q = SYS.get(((StringValue) h).val.toString());
    if (q == null) throw new RuntimeException("unknown linear system " + h);
    return q;
  }
  static Form subst(Sys q, Form f) {
    Form g = new Form(); g.c = f.c;
    for (java.util.Map.Entry<Integer, BigInteger> e : f.t.entrySet()) {
      Form r = q.piv.get(e.getKey());
      if (r == null) g.add(e.getKey(), e.getValue()); else g.addScaled(e.getValue(), r);
    }
    return g;
  }
  static Form form(Value v) {
    Value[] row = seq(v); Form f = new Form();
    for (Value t : seq(row[0])) { Value[] e = seq(t); f.add(((IntValue) e[0]).val, p(e[1])); }
    f.c = p(row[1]); return f;
  }
  @TLAPlusOperator(identifier = "LinAdd", module = "Lin", warn = false)
  public static Value LinAdd(StringValue h, Value rows) throws Exception {
    MessageDigest d = MessageDigest.getInstance("SHA-256");
    d.update(h.val.toString().getBytes("UTF-8"));
    d.update(rows.toString().getBytes("UTF-8"));
    String memo = new BigInteger(1, d.digest()).shiftRight(96).toString(16);
    String known = MEMO.get(memo);
    if (known != null) return new StringValue(known);
    Sys base = sys(h);
    Sys cur = new Sys(new java.util.HashMap<>(base.piv)); cur.sum = base.sum;
    java.util.HashMap<Integer, java.util.HashSet<Integer>> use = new java.util.HashMap<>();
    for (java.util.Map.Entry<Integer, Form> e : cur.piv.entrySet())
      for (Integer x : e.getValue().t.keySet()) use.computeIfAbsent(x, z -> new java.util.HashSet<>()).add(e.getKey());
    for (Value v : seq(rows)) {
      Form f = subst(cur, form(v));
      if (f.t.isEmpty()) {
        if (f.c.signum() != 0) { MEMO.put(memo, "bad"); return new StringValue("bad"); }
        continue;
      }
      int x = f.t.lastKey();                       // solve for the highest-numbered variable
      BigInteger k = f.t.remove(x).modInverse(R).negate().mod(R);
      Form g = new Form(); g.addScaled(k, f);
      java.util.HashSet<Integer> users = use.remove(x);
      if (users != null) for (Integer y : users) {
        Form o = cur.piv.get(y), n = new Form();
        BigInteger ky = o.t.get(x);
        if (ky == null) continue;
        n.t.putAll(o.t); n.c = o.c; n.t.remove(x); n.addScaled(ky, g);
        cur.put(y, n);
        for (Integer z : g.t.keySet()) use.computeIfAbsent(z, q -> new java.util.HashSet<>()).add(y);
      }
      cur.put(x, g);
      for (Integer z : g.t.keySet()) use.computeIfAbsent(z, q -> new java.util.HashSet<>()).add(x);
    }
    String key = cur.key();
    SYS.putIfAbsent(key, cur);
    MEMO.put(memo, key);
    return new StringValue(key);
  }
  static Form formOf(Sys q, int x) {
    Form f = q.piv.get(x);
    if (f == null) { f = new Form(); f.t.put(x, BigInteger.ONE); }
    return f;
  }
  @TLAPlusOperator(identifier = "LinConst", module = "Lin", warn = false)
  public static Value LinConst(StringValue h, IntValue x) {
    Form f = formOf(sys(h), x.val);
    return f.t.isEmpty() ? s(f.c) : new StringValue("?");
  }
  @TLAPlusOperator(identifier = "LinFree", module = "Lin", warn = false)
  public static Value LinFree(StringValue h, IntValue x) {
    Form f = formOf(sys(h), x.val);
    Value[] out = new Value[f.t.size()]; int i = 0;
    for (Integer y : f.t.keySet()) out[i++] = IntValue.gen(y);
    return new TupleValue(out);
  }
  @TLAPlusOperator(identifier = "LinParams", module = "Lin", warn = false)
  public static Value LinParams(StringValue h, IntValue n) {
    Sys q = sys(h); java.util.ArrayList<Value> out = new java.util.ArrayList<>();
    for (int x = 1; x <= n.val; x++) if (!q.piv.containsKey(x)) out.add(IntValue.gen(x));
    return new TupleValue(out.toArray(new Value[0]));
  }
  @TLAPlusOperator(identifier = "LinEval", module = "Lin", warn = false)
  public static Value LinEval(StringValue h, IntValue n, Value free) {
    Sys q = sys(h); Value[] fr = seq(free); BigInteger[] val = new BigInteger[n.val + 1]; int i = 0;
    for (int x = 1; x <= n.val; x++) if (!q.piv.containsKey(x)) val[x] = p(fr[i++]);
    Value[] out = new Value[n.val];
    for (int x = 1; x <= n.val; x++) {
      BigInteger acc = val[x];
      if (acc == null) {
        Form f = q.piv.get(x); acc = f.c;
        for (java.util.Map.Entry<Integer, BigInteger> e : f.t.entrySet()) acc = acc.add(e.getValue().multiply(val[e.getKey()]));
        acc = acc.mod(R);
      }
      out[x - 1] = s(acc);
    }
    return new TupleValue(out);
  }
}
