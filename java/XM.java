// TLC module override for spec/XM.tla: real arithmetic on decimal strings and
// type-tolerant deep comparison.  Reals in specifications and traces are
// strings ("0.25", "-1.5E-3", "NaN", "Infinity"); everything is evaluated in
// IEEE double precision.
import tlc2.value.impl.*;
import java.util.*;

public class XM {
  static double d(Value v) {
    if (v instanceof IntValue) return ((IntValue) v).val;
    if (v instanceof StringValue) return Double.parseDouble(((StringValue) v).val.toString());
    throw new RuntimeException("not a real: " + v);
  }
  static Value s(double x) { return new StringValue(Double.toString(x)); }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static Value[] seq(Value q) {
    Value t = q.toTuple();
    if (t == null) throw new RuntimeException("not a sequence: " + q);
    return ((TupleValue) t).elems;
  }

  public static Value FAdd(Value a, Value c) { return s(d(a) + d(c)); }
  public static Value FSub(Value a, Value c) { return s(d(a) - d(c)); }
  public static Value FMul(Value a, Value c) { return s(d(a) * d(c)); }
  public static Value FDiv(Value a, Value c) { return s(d(a) / d(c)); }
  public static Value FNeg(Value a) { return s(-d(a)); }
  public static Value FLog(Value a) { return s(Math.log(d(a))); }
  public static Value FExp(Value a) { return s(Math.exp(d(a))); }
  public static Value FSin(Value a) { return s(Math.sin(d(a))); }
  public static Value FCos(Value a) { return s(Math.cos(d(a))); }
  public static Value FSqrt(Value a) { return s(Math.sqrt(d(a))); }
  public static Value FAbs(Value a) { return s(Math.abs(d(a))); }
  public static Value FMax(Value a, Value c) { return s(Math.max(d(a), d(c))); }
  public static Value FMin(Value a, Value c) { return s(Math.min(d(a), d(c))); }
  public static Value FLe(Value a, Value c) { return b(d(a) <= d(c)); }
  public static Value FLt(Value a, Value c) { return b(d(a) < d(c)); }
  public static Value FEq(Value a, Value c) { return b(d(a) == d(c)); }
  public static Value FFinite(Value a) { double x = d(a); return b(!Double.isNaN(x) && !Double.isInfinite(x)); }
  public static Value FNaN(Value a) { return b(Double.isNaN(d(a))); }
  public static Value FInt(Value a) { return s(d(a)); }
  public static Value F32(Value a) { return s((double) (float) d(a)); }
  public static Value FFloor(Value a) { return IntValue.gen((int) Math.floor(d(a))); }
  static boolean close(double x, double y, double rel, double abs) {
    if (Double.isNaN(x) || Double.isNaN(y)) return Double.isNaN(x) && Double.isNaN(y);
    if (x == y) return true;
    if (Double.isInfinite(x) || Double.isInfinite(y)) return false;
    return Math.abs(x - y) <= abs + rel * Math.max(Math.abs(x), Math.abs(y));
  }
  public static Value FClose(Value a, Value c, Value rel, Value abs) { return b(close(d(a), d(c), d(rel), d(abs))); }
  public static Value FSum(Value q) { double t = 0; for (Value v : seq(q)) t += d(v); return s(t); }
  public static Value FProd(Value q) { double t = 1; for (Value v : seq(q)) t *= d(v); return s(t); }
  public static Value FMaxSeq(Value q) { double t = Double.NEGATIVE_INFINITY; for (Value v : seq(q)) t = Math.max(t, d(v)); return s(t); }
  public static Value FDot(Value p, Value q) {
    Value[] x = seq(p), y = seq(q); double t = 0;
    for (int i = 0; i < x.length; i++) t += d(x[i]) * d(y[i]);
    return s(t);
  }
  // index (from 1) of the first greatest / least element
  public static Value FArgMax(Value q) {
    Value[] x = seq(q); int k = 0;
    for (int i = 1; i < x.length; i++) if (d(x[i]) > d(x[k])) k = i;
    return IntValue.gen(k + 1);
  }
  public static Value FArgMin(Value q) {
    Value[] x = seq(q); int k = 0;
    for (int i = 1; i < x.length; i++) if (d(x[i]) < d(x[k])) k = i;
    return IntValue.gen(k + 1);
  }
  // multivariate normal density: x, mean: sequences of n; cov: sequence of n*n (row major)
  static double[][] mat(Value[] c, int n) {
    double[][] m = new double[n][n];
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m[i][j] = d(c[i * n + j]);
    return m;
  }
  static double det(double[][] a) {
    int n = a.length; double[][] m = new double[n][]; for (int i = 0; i < n; i++) m[i] = a[i].clone();
    double r = 1;
    for (int k = 0; k < n; k++) {
      int p = k; for (int i = k + 1; i < n; i++) if (Math.abs(m[i][k]) > Math.abs(m[p][k])) p = i;
      if (m[p][k] == 0) return 0;
      if (p != k) { double[] t = m[p]; m[p] = m[k]; m[k] = t; r = -r; }
      r *= m[k][k];
      for (int i = k + 1; i < n; i++) { double f = m[i][k] / m[k][k]; for (int j = k; j < n; j++) m[i][j] -= f * m[k][j]; }
    }
    return r;
  }
  static double[][] inv(double[][] a) {
    int n = a.length; double[][] m = new double[n][2 * n];
    for (int i = 0; i < n; i++) { System.arraycopy(a[i], 0, m[i], 0, n); m[i][n + i] = 1; }
    for (int k = 0; k < n; k++) {
      int p = k; for (int i = k + 1; i < n; i++) if (Math.abs(m[i][k]) > Math.abs(m[p][k])) p = i;
      double[] t = m[p]; m[p] = m[k]; m[k] = t;
      double f = m[k][k]; for (int j = 0; j < 2 * n; j++) m[k][j] /= f;
      for (int i = 0; i < n; i++) if (i != k) { double g = m[i][k]; for (int j = 0; j < 2 * n; j++) m[i][j] -= g * m[k][j]; }
    }
    double[][] r = new double[n][n];
    for (int i = 0; i < n; i++) System.arraycopy(m[i], n, r[i], 0, n);
    return r;
  }
  public static Value FDet(Value cov, Value nn) { return s(det(mat(seq(cov), ((IntValue) nn).val))); }
  public static Value FInv(Value cov, Value nn) {
    int n = ((IntValue) nn).val; double[][] r = inv(mat(seq(cov), n));
    Value[] o = new Value[n * n];
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) o[i * n + j] = s(r[i][j]);
    return new TupleValue(o);
  }
  // quadratic form (x-m)' C^-1 (x-m)
  public static Value FQuad(Value x, Value mean, Value cov) {
    Value[] xs = seq(x), ms = seq(mean); int n = xs.length;
    double[][] ci = inv(mat(seq(cov), n)); double q = 0;
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) q += (d(xs[i]) - d(ms[i])) * ci[i][j] * (d(xs[j]) - d(ms[j]));
    return s(q);
  }

  // (x-m)' A (x-m) for a given row-major A
  public static Value FForm(Value x, Value mean, Value a) {
    Value[] xs = seq(x), ms = seq(mean), as = seq(a); int n = xs.length; double q = 0;
    double[] y = new double[n]; for (int i = 0; i < n; i++) y[i] = d(xs[i]) - d(ms[i]);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) q += y[i] * d(as[i * n + j]) * y[j];
    return s(q);
  }
  public static Value FText(Value q) { StringBuilder t = new StringBuilder(); for (Value v : seq(q)) t.append((char) ((IntValue) v).val); return new StringValue(t.toString()); }
  // the same value, with every function inside evaluated once and for all
  public static Value Eager(Value v) {
    if (v instanceof StringValue || v instanceof IntValue || v instanceof BoolValue) return v;
    Value t = tup(v);
    if (t != null) { Value[] x = ((TupleValue) t).elems, y = new Value[x.length]; for (int i = 0; i < x.length; i++) y[i] = Eager(x[i]); return new TupleValue(y); }
    if (v instanceof RecordValue) { RecordValue r = (RecordValue) v; Value[] y = new Value[r.values.length]; for (int i = 0; i < y.length; i++) y[i] = Eager(r.values[i]); return new RecordValue(r.names, y, r.isNormalized()); }
    if (v instanceof FcnLambdaValue) return v.toFcnRcd();
    return v;
  }

  // ---- deep comparison, tolerant to type differences (different types: not the same)
  static boolean isReal(Value v) {
    if (v instanceof IntValue) return true;
    if (!(v instanceof StringValue)) return false;
    String t = ((StringValue) v).val.toString();
    if (t.isEmpty()) return false;
    char c = t.charAt(0);
    if (!(c == '-' || c == '+' || c == '.' || Character.isDigit(c) || t.equals("NaN") || t.equals("Infinity"))) return false;
    try { Double.parseDouble(t); return true; } catch (NumberFormatException e) { return false; }
  }
  static Map<String, Value> fields(Value v) {
    RecordValue r = (RecordValue) v.toRcd(); Map<String, Value> m = new TreeMap<>();
    for (int i = 0; i < r.names.length; i++) m.put(r.names[i].toString(), r.values[i]);
    return m;
  }
  static boolean recLike(Value v) { return v instanceof RecordValue || (v instanceof FcnRcdValue && v.toTuple() == null && v.toRcd() != null); }
  static boolean deep(Value a, Value c, boolean tol, double rel, double abs, StringBuilder path, int[] where) {
    if (tol && isReal(a) && isReal(c)) return close(d(a), d(c), rel, abs);
    if (a instanceof IntValue || c instanceof IntValue)
      return a instanceof IntValue && c instanceof IntValue && ((IntValue) a).val == ((IntValue) c).val;
    if (a instanceof StringValue || c instanceof StringValue)
      return a instanceof StringValue && c instanceof StringValue && ((StringValue) a).val.equals(((StringValue) c).val);
    if (a instanceof BoolValue || c instanceof BoolValue)
      return a instanceof BoolValue && c instanceof BoolValue && ((BoolValue) a).val == ((BoolValue) c).val;
    Value ta = tup(a), tc = tup(c);
    if (ta != null || tc != null) {
      if (ta == null || tc == null) return false;
      Value[] x = ((TupleValue) ta).elems, y = ((TupleValue) tc).elems;
      if (x.length != y.length) { path.append("#len ").append(x.length).append("/").append(y.length); return false; }
      for (int i = 0; i < x.length; i++) { int n = path.length(); path.append("[").append(i + 1).append("]"); if (!deep(x[i], y[i], tol, rel, abs, path, where)) return false; path.setLength(n); }
      return true;
    }
    if (recLike(a) || recLike(c)) {
      if (!recLike(a) || !recLike(c)) return false;
      Map<String, Value> x = fields(a), y = fields(c);
      if (!x.keySet().equals(y.keySet())) { path.append("#fields ").append(x.keySet()).append("/").append(y.keySet()); return false; }
      for (String k : x.keySet()) { int n = path.length(); path.append(".").append(k); if (!deep(x.get(k), y.get(k), tol, rel, abs, path, where)) return false; path.setLength(n); }
      return true;
    }
    try { return a.equals(c); } catch (RuntimeException e) { return false; }
  }
  static Value tup(Value v) {
    if (v instanceof TupleValue) return v;
    if (v instanceof RecordValue) return ((RecordValue) v).names.length == 0 ? new TupleValue(new Value[0]) : null;
    if (v instanceof FcnRcdValue || v instanceof FcnLambdaValue) { try { return v.toTuple(); } catch (RuntimeException e) { return null; } }
    return null;
  }
  public static Value Same(Value a, Value c) { return b(deep(a, c, false, 0, 0, new StringBuilder(), null)); }
  public static Value CloseV(Value a, Value c, Value rel, Value abs) { return b(deep(a, c, true, d(rel), d(abs), new StringBuilder(), null)); }
  // where two values differ, for diagnostics
  public static Value DiffAt(Value a, Value c) {
    StringBuilder p = new StringBuilder(); boolean e = deep(a, c, true, 1e-9, 1e-12, p, null);
    return new StringValue(e ? "" : p.length() == 0 ? "." : p.toString());
  }
}
