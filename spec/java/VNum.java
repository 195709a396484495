import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.FcnLambdaValue;
import tlc2.value.impl.FcnRcdValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.RecordValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/**
 * Implementation of module Num for TLC: extended rational numbers as strings.
 *
 * A number is "p" or "p/q" in lowest terms with q > 1, or one of "nan", "inf",
 * "-inf" (IEEE meaning) and "any" (a value the specification leaves open).
 * Irrational functions return rationals correct to about 40 significant digits.
 */
public final class VNum implements ITLCOverrides {
  public Class[] get() {
    return new Class[] {VNum.class};
  }

  static final MathContext MC = new MathContext(60);
  static final int MAXBITS = 1200;

  static final class Q {
    final int kind;  // 0 finite, 1 nan, 2 +inf, 3 -inf, 4 any
    final BigInteger p, q;

    Q(int kind, BigInteger p, BigInteger q) {
      this.kind = kind;
      this.p = p;
      this.q = q;
    }

    int sign() {
      return kind == 0 ? p.signum() : kind == 2 ? 1 : kind == 3 ? -1 : 0;
    }
  }

  static final Q NAN = new Q(1, null, null), INF = new Q(2, null, null),
      NINF = new Q(3, null, null), ANY = new Q(4, null, null);
  static final Q ZERO = new Q(0, BigInteger.ZERO, BigInteger.ONE);
  static final ConcurrentHashMap<String, Q> CACHE = new ConcurrentHashMap<>();

  static Q mk(BigInteger p, BigInteger q) {
    if (q.signum() < 0) {
      p = p.negate();
      q = q.negate();
    }
    BigInteger g = p.gcd(q);
    if (!g.equals(BigInteger.ONE) && g.signum() != 0) {
      p = p.divide(g);
      q = q.divide(g);
    }
    if (q.bitLength() > MAXBITS) {
      return fromDec(new BigDecimal(p).divide(new BigDecimal(q), new MathContext(120)));
    }
    return new Q(0, p, q);
  }

  static Q fromDec(BigDecimal d) {
    if (d.signum() == 0) {
      return ZERO;
    }
    BigInteger u = d.unscaledValue();
    if (d.scale() > 0) {
      BigInteger q = BigInteger.TEN.pow(d.scale());
      BigInteger g = u.gcd(q);
      return new Q(0, u.divide(g), q.divide(g));
    }
    return new Q(0, u.multiply(BigInteger.TEN.pow(-d.scale())), BigInteger.ONE);
  }

  static BigDecimal dec(Q a) {
    return new BigDecimal(a.p).divide(new BigDecimal(a.q), MC);
  }

  static Q parse(Value v) {
    String s = ((StringValue) v).val.toString();
    Q r = CACHE.get(s);
    if (r != null) {
      return r;
    }
    if (s.equals("nan")) {
      r = NAN;
    } else if (s.equals("inf")) {
      r = INF;
    } else if (s.equals("-inf")) {
      r = NINF;
    } else if (s.equals("any")) {
      r = ANY;
    } else {
      int i = s.indexOf('/');
      r = i < 0 ? new Q(0, new BigInteger(s), BigInteger.ONE)
          : mk(new BigInteger(s.substring(0, i)), new BigInteger(s.substring(i + 1)));
    }
    if (CACHE.size() < 300000) {
      CACHE.put(s, r);
    }
    return r;
  }

  static String str(Q a) {
    switch (a.kind) {
      case 1: return "nan";
      case 2: return "inf";
      case 3: return "-inf";
      case 4: return "any";
      default:
        return a.q.equals(BigInteger.ONE) ? a.p.toString() : a.p + "/" + a.q;
    }
  }

  static Value out(Q a) {
    return new StringValue(str(a));
  }

  static Q inf(int sign) {
    return sign > 0 ? INF : NINF;
  }

  static Q add(Q a, Q b) {
    if (a.kind == 4 || b.kind == 4) return ANY;
    if (a.kind == 1 || b.kind == 1) return NAN;
    if (a.kind == 0 && b.kind == 0) {
      return mk(a.p.multiply(b.q).add(b.p.multiply(a.q)), a.q.multiply(b.q));
    }
    if (a.kind == 0) return b;
    if (b.kind == 0) return a;
    return a.kind == b.kind ? a : NAN;
  }

  static Q neg(Q a) {
    switch (a.kind) {
      case 0: return new Q(0, a.p.negate(), a.q);
      case 2: return NINF;
      case 3: return INF;
      default: return a;
    }
  }

  static Q mul(Q a, Q b) {
    if (a.kind == 4 || b.kind == 4) return ANY;
    if (a.kind == 1 || b.kind == 1) return NAN;
    if (a.kind == 0 && b.kind == 0) return mk(a.p.multiply(b.p), a.q.multiply(b.q));
    int s = a.sign() * b.sign();
    return s == 0 ? NAN : inf(s);
  }

  static Q div(Q a, Q b) {
    if (a.kind == 4 || b.kind == 4) return ANY;
    if (a.kind == 1 || b.kind == 1) return NAN;
    if (a.kind == 0 && b.kind == 0) {
      if (b.p.signum() == 0) return a.p.signum() == 0 ? NAN : inf(a.p.signum());
      return mk(a.p.multiply(b.q), a.q.multiply(b.p));
    }
    if (a.kind == 0) return ZERO;
    if (b.kind == 0) return b.sign() == 0 ? a : inf(a.sign() * b.sign());
    return NAN;
  }

  static Q sqrt(Q a) {
    if (a.kind == 4) return ANY;
    if (a.kind == 1 || a.sign() < 0) return NAN;
    if (a.kind == 2) return INF;
    if (a.p.signum() == 0) return ZERO;
    BigInteger rp = a.p.sqrt(), rq = a.q.sqrt();
    if (rp.multiply(rp).equals(a.p) && rq.multiply(rq).equals(a.q)) return new Q(0, rp, rq);
    return fromDec(dec(a).sqrt(MC));
  }

  static int cmp(Q a, Q b) {  // only for non-nan, non-any
    if (a.kind == 0 && b.kind == 0) return a.p.multiply(b.q).compareTo(b.p.multiply(a.q));
    if (a.kind == b.kind) return 0;
    if (a.kind == 2 || b.kind == 3) return 1;
    return -1;
  }

  static boolean odd(Q a, Q b) {
    return a.kind == 1 || a.kind == 4 || b.kind == 1 || b.kind == 4;
  }

  static double dbl(Q a) {
    switch (a.kind) {
      case 0: return dec(a).doubleValue();
      case 2: return Double.POSITIVE_INFINITY;
      case 3: return Double.NEGATIVE_INFINITY;
      default: return Double.NaN;
    }
  }

  static Q fromDouble(double d) {
    if (Double.isNaN(d)) return NAN;
    if (Double.isInfinite(d)) return d > 0 ? INF : NINF;
    return fromDec(new BigDecimal(d));
  }

  @TLAPlusOperator(identifier = "NAdd", module = "Num", warn = false)
  public static Value nadd(Value a, Value b) {
    return out(add(parse(a), parse(b)));
  }

  @TLAPlusOperator(identifier = "NSub", module = "Num", warn = false)
  public static Value nsub(Value a, Value b) {
    return out(add(parse(a), neg(parse(b))));
  }

  @TLAPlusOperator(identifier = "NMul", module = "Num", warn = false)
  public static Value nmul(Value a, Value b) {
    return out(mul(parse(a), parse(b)));
  }

  /** With MS_NULLDIV=1 dividing by zero is missing, as in the queries, and not infinite. */
  private static final boolean NULLDIV = "1".equals(System.getenv("MS_NULLDIV"));

  private static Value outDiv(Q r) {
    return out(NULLDIV && r.kind != 4 && r.kind != 0 ? NAN : r);
  }

  @TLAPlusOperator(identifier = "Unsaid", module = "Num", warn = false)
  public static Value unsaid(Value a) {
    return NULLDIV ? out(ANY) : a;
  }

  @TLAPlusOperator(identifier = "NDiv", module = "Num", warn = false)
  public static Value ndiv(Value a, Value b) {
    return outDiv(div(parse(a), parse(b)));
  }

  @TLAPlusOperator(identifier = "NNeg", module = "Num", warn = false)
  public static Value nneg(Value a) {
    return out(neg(parse(a)));
  }

  @TLAPlusOperator(identifier = "NSqrt", module = "Num", warn = false)
  public static Value nsqrt(Value a) {
    return out(sqrt(parse(a)));
  }

  @TLAPlusOperator(identifier = "NLn", module = "Num", warn = false)
  public static Value nln(Value a) {
    Q q = parse(a);
    if (q.kind == 4) return out(ANY);
    return out(fromDouble(Math.log(dbl(q))));
  }

  @TLAPlusOperator(identifier = "NExp", module = "Num", warn = false)
  public static Value nexp(Value a) {
    Q q = parse(a);
    if (q.kind == 4) return out(ANY);
    return out(fromDouble(Math.exp(dbl(q))));
  }

  @TLAPlusOperator(identifier = "NPow", module = "Num", warn = false)
  public static Value npow(Value x, Value y) {
    Q a = parse(x), b = parse(y);
    if (a.kind == 4 || b.kind == 4) return out(ANY);
    if (NULLDIV && (a.kind == 1 || b.kind == 1)) return out(NAN);
    if (b.kind == 0 && b.p.signum() == 0) return new StringValue("1");
    if (a.kind == 1 || b.kind == 1) return out(NAN);
    if (a.kind == 0 && b.kind == 0 && b.q.equals(BigInteger.ONE) && b.p.bitLength() < 8) {
      int n = b.p.intValue();
      if (n >= 0) return out(mk(a.p.pow(n), a.q.pow(n)));
      if (a.p.signum() == 0) return outDiv(INF);
      return out(mk(a.q.pow(-n), a.p.pow(-n)));
    }
    if (b.kind == 0 && b.p.equals(BigInteger.ONE) && b.q.equals(BigInteger.TWO)) {
      return out(sqrt(a));
    }
    return outDiv(fromDouble(Math.pow(dbl(a), dbl(b))));
  }

  @TLAPlusOperator(identifier = "NLt", module = "Num", warn = false)
  public static Value nlt(Value x, Value y) {
    Q a = parse(x), b = parse(y);
    return odd(a, b) ? BoolValue.ValFalse : cmp(a, b) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
  }

  @TLAPlusOperator(identifier = "NLe", module = "Num", warn = false)
  public static Value nle(Value x, Value y) {
    Q a = parse(x), b = parse(y);
    return odd(a, b) ? BoolValue.ValFalse : cmp(a, b) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
  }

  @TLAPlusOperator(identifier = "NInt", module = "Num", warn = false)
  public static Value nint(Value n) {
    return new StringValue(Integer.toString(((IntValue) n).val));
  }

  /** Floor of a finite number as a TLA+ integer. */
  @TLAPlusOperator(identifier = "NFloor", module = "Num", warn = false)
  public static Value nfloor(Value x) {
    Q a = parse(x);
    BigInteger[] qr = a.p.divideAndRemainder(a.q);
    BigInteger f = qr[0];
    if (qr[1].signum() < 0) f = f.subtract(BigInteger.ONE);
    return IntValue.gen(f.intValueExact());
  }

  @TLAPlusOperator(identifier = "NSum", module = "Num", warn = false)
  public static Value nsum(Value s) {
    TupleValue t = (TupleValue) s.toTuple();
    Q r = ZERO;
    for (Value v : t.elems) r = add(r, parse(v));
    return out(r);
  }

  /** Closeness of an expected and an observed value; tol is 10^-digits. */
  @TLAPlusOperator(identifier = "NClose", module = "Num", warn = false)
  public static Value nclose(Value x, Value y, Value digits) {
    Q a = parse(x), b;
    if (a.kind == 4) return BoolValue.ValTrue;
    try {
      b = parse(y);
    } catch (RuntimeException e) {  // an observation that is no number at all
      return BoolValue.ValFalse;
    }
    if (a.kind != 0 || b.kind != 0) {  // the sign of an infinity may stem from a signed zero
      boolean infs = a.kind >= 2 && b.kind >= 2 && b.kind != 4;
      return a.kind == b.kind || infs ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
    if (a.p.equals(b.p) && a.q.equals(b.q)) return BoolValue.ValTrue;
    double da = dbl(a), db = dbl(b);
    double scale = Math.max(1, Math.max(Math.abs(da), Math.abs(db)));
    double diff = Math.abs(dbl(add(a, neg(b))));
    double tol = Math.pow(10, -((IntValue) digits).val);
    return diff <= tol * scale ? BoolValue.ValTrue : BoolValue.ValFalse;
  }

  // Student t: CDF for integer degrees of freedom by the finite trigonometric
  // series (Abramowitz and Stegun 26.7.3/26.7.4); inverted by bisection.
  static double tTwoSided(double t, int n) {  // A(t|n) = P(|T| <= t)
    double th = Math.atan2(t, Math.sqrt(n));
    double s = Math.sin(th), c = Math.cos(th);
    double sum = 0, term;
    if (n % 2 == 1) {
      if (n > 1) {
        term = c;
        sum = term;
        for (int k = 3; k <= n - 2; k += 2) {
          term *= c * c * (k - 1) / (double) k;
          sum += term;
        }
      }
      return 2 / Math.PI * (th + s * sum);
    }
    term = 1;
    sum = 1;
    for (int k = 2; k <= n - 2; k += 2) {
      term *= c * c * (k - 1) / (double) k;
      sum += term;
    }
    return s * sum;
  }

  /** The t with P(|T_dof| <= t) = conf. */
  @TLAPlusOperator(identifier = "TQuantile", module = "Num", warn = false)
  public static Value tquantile(Value conf, Value dof) {
    Q c = parse(conf), d = parse(dof);
    if (c.kind == 4 || d.kind == 4) return out(ANY);
    if (c.kind != 0 || d.kind != 0 || d.p.signum() <= 0) return out(NAN);
    double conf1 = dbl(c);
    int n = d.p.divide(d.q).intValueExact();
    double lo = 0, hi = 1;
    while (tTwoSided(hi, n) < conf1) hi *= 2;
    for (int i = 0; i < 200; i++) {
      double mid = (lo + hi) / 2;
      if (tTwoSided(mid, n) < conf1) lo = mid; else hi = mid;
    }
    return out(fromDouble((lo + hi) / 2));
  }

  /** The identity; evaluates functions and sequences completely (TLC keeps them lazy). */
  @TLAPlusOperator(identifier = "Force", module = "Num", warn = false)
  public static Value force(Value v) {
    if (v instanceof FcnLambdaValue) {
      v = (Value) ((FcnLambdaValue) v).toFcnRcd();
    }
    if (v instanceof FcnRcdValue) {
      Value[] a = ((FcnRcdValue) v).values;
      for (int i = 0; i < a.length; i++) a[i] = force(a[i]);
      Value t = (Value) v.toTuple();
      return t == null ? v : t;
    }
    if (v instanceof TupleValue) {
      Value[] a = ((TupleValue) v).elems;
      for (int i = 0; i < a.length; i++) a[i] = force(a[i]);
    } else if (v instanceof RecordValue) {
      Value[] a = ((RecordValue) v).values;
      for (int i = 0; i < a.length; i++) a[i] = force(a[i]);
    }
    return v;
  }

  /** Strict lexicographic order on strings (by code unit). */
  @TLAPlusOperator(identifier = "StrLt", module = "Num", warn = false)
  public static Value strlt(Value a, Value b) {
    String s = ((StringValue) a).val.toString(), t = ((StringValue) b).val.toString();
    return s.compareTo(t) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
  }
}
