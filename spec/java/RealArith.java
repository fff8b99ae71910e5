import tlc2.value.impl.*;
import java.util.HashMap;

/**
 * TLC operator overrides for module RealArith: IEEE-754 binary64 arithmetic.
 * A real is a pair <<hi,lo>> of signed 32-bit integers (the bits of a double);
 * an IntValue and a decimal StringValue are accepted as real literals.
 * A column ("flat" vector) is a tuple <<hi1,lo1,hi2,lo2,...>>.
 */
public class RealArith {
  static final HashMap<String,Double> lits = new HashMap<>();

  static double bits(Value hi, Value lo) {
    return Double.longBitsToDouble((((long)((IntValue)hi).val)<<32) | (((IntValue)lo).val & 0xffffffffL));
  }
  static double d(Value v) {
    if (v instanceof IntValue) return ((IntValue)v).val;
    if (v instanceof StringValue) {
      String s = ((StringValue)v).val.toString();
      Double x = lits.get(s);
      if (x == null) { x = Double.parseDouble(s); lits.put(s, x); }
      return x;
    }
    Value[] e = ((TupleValue)v.toTuple()).elems;
    return bits(e[0], e[1]);
  }
  static Value v(double x) {
    long b = Double.doubleToLongBits(x);
    return new TupleValue(new Value[]{IntValue.gen((int)(b>>32)), IntValue.gen((int)b)});
  }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static double[] col(Value v) {
    Value[] e = ((TupleValue)v.toTuple()).elems;
    double[] r = new double[e.length/2];
    for (int i = 0; i < r.length; i++) r[i] = bits(e[2*i], e[2*i+1]);
    return r;
  }
  static Value flat(double[] x) {
    Value[] e = new Value[2*x.length];
    for (int i = 0; i < x.length; i++) {
      long q = Double.doubleToLongBits(x[i]);
      e[2*i] = IntValue.gen((int)(q>>32)); e[2*i+1] = IntValue.gen((int)q);
    }
    return new TupleValue(e);
  }

  // distributions
  static double lgamma(double x) {
    if (x < 9) { double f = 1; while (x < 9) { f *= x; x += 1; } return lgamma(x) - Math.log(f); }
    double z = 1/(x*x);
    return (x-0.5)*Math.log(x)-x+0.9189385332046727418
      + (1/x)*(1.0/12-z*(1.0/360-z*(1.0/1260-z*(1.0/1680-z*(1.0/1188-z*691.0/360360)))));
  }
  static double betacf(double a, double b, double x) {
    double c=1, e=1-(a+b)*x/(a+1); if (Math.abs(e)<1e-300) e=1e-300; e=1/e; double h=e;
    for (int m=1;m<10000;m++) {
      double m2=2*m, q=m*(b-m)*x/((a-1+m2)*(a+m2));
      e=1+q*e; if (Math.abs(e)<1e-300) e=1e-300; c=1+q/c; if (Math.abs(c)<1e-300) c=1e-300; e=1/e; h*=e*c;
      q=-(a+m)*(a+b+m)*x/((a+m2)*(a+1+m2));
      e=1+q*e; if (Math.abs(e)<1e-300) e=1e-300; c=1+q/c; if (Math.abs(c)<1e-300) c=1e-300; e=1/e;
      double g=e*c; h*=g; if (Math.abs(g-1)<1e-16) break;
    }
    return h;
  }
  static double betainc(double a, double b, double x) {
    if (x<=0) return 0; if (x>=1) return 1;
    double f=Math.exp(lgamma(a+b)-lgamma(a)-lgamma(b)+a*Math.log(x)+b*Math.log1p(-x));
    return x<(a+1)/(a+b+2) ? f*betacf(a,b,x)/a : 1-f*betacf(b,a,1-x)/b;
  }
  static double gammainc(double a, double x) {
    if (x<=0) return 0;
    double f=Math.exp(-x+a*Math.log(x)-lgamma(a));
    if (x<a+1) { double t=1/a, u=t; for (int n=1;n<100000;n++) { t*=x/(a+n); u+=t; if (t<u*1e-17) break; } return u*f; }
    double bb=x+1-a, c=1e300, e=1/bb, h=e;
    for (int i=1;i<100000;i++) { double q=-i*(i-a); bb+=2; e=q*e+bb; if (Math.abs(e)<1e-300) e=1e-300; c=bb+q/c;
      if (Math.abs(c)<1e-300) c=1e-300; e=1/e; double g=e*c; h*=g; if (Math.abs(g-1)<1e-16) break; }
    return 1-f*h;
  }
  /** p-quantile of the F distribution with (a, c) degrees of freedom, by bisection. */
  public static Value RFQuantile(final Value a, final Value c, final Value p) {
    double d1=d(a), d2=d(c), q=d(p), lo=0, hi=1;
    while (betainc(d1/2,d2/2,d1*hi/(d1*hi+d2))<q && hi<1e300) hi*=2;
    for (int i=0;i<200;i++) { double m=(lo+hi)/2; if (betainc(d1/2,d2/2,d1*m/(d1*m+d2))<q) lo=m; else hi=m; }
    return v((lo+hi)/2);
  }
  public static Value RChiSqQuantile(final Value a, final Value p) {
    double k=d(a), q=d(p), lo=0, hi=1;
    while (gammainc(k/2,hi/2)<q && hi<1e300) hi*=2;
    for (int i=0;i<200;i++) { double m=(lo+hi)/2; if (gammainc(k/2,m/2)<q) lo=m; else hi=m; }
    return v((lo+hi)/2);
  }

  // scalars
  public static Value R(final Value a) { return v(d(a)); }
  public static Value RAdd(final Value a, final Value c) { return v(d(a)+d(c)); }
  public static Value RSub(final Value a, final Value c) { return v(d(a)-d(c)); }
  public static Value RMul(final Value a, final Value c) { return v(d(a)*d(c)); }
  public static Value RDiv(final Value a, final Value c) { return v(d(a)/d(c)); }
  public static Value RNeg(final Value a) { return v(-d(a)); }
  public static Value RAbs(final Value a) { return v(Math.abs(d(a))); }
  public static Value RSqrt(final Value a) { return v(Math.sqrt(d(a))); }
  public static Value RSin(final Value a) { return v(Math.sin(d(a))); }
  public static Value RCos(final Value a) { return v(Math.cos(d(a))); }
  public static Value RTan(final Value a) { return v(Math.tan(d(a))); }
  public static Value RAtan2(final Value y, final Value x) { return v(Math.atan2(d(y),d(x))); }
  public static Value RAsin(final Value a) { return v(Math.asin(Math.max(-1,Math.min(1,d(a))))); }
  public static Value RAcos(final Value a) { return v(Math.acos(Math.max(-1,Math.min(1,d(a))))); }
  public static Value RExp(final Value a) { return v(Math.exp(d(a))); }
  public static Value RLn(final Value a) { return v(Math.log(d(a))); }
  public static Value RPow(final Value a, final Value c) { return v(Math.pow(d(a),d(c))); }
  public static Value RMax(final Value a, final Value c) { return v(Math.max(d(a),d(c))); }
  public static Value RMin(final Value a, final Value c) { return v(Math.min(d(a),d(c))); }
  public static Value RRad(final Value a) { return v(Math.toRadians(d(a))); }
  public static Value RDeg(final Value a) { return v(Math.toDegrees(d(a))); }
  public static Value RFloor(final Value a) { return v(Math.floor(d(a))); }
  public static Value RLt(final Value a, final Value c) { return b(d(a)<d(c)); }
  public static Value RLe(final Value a, final Value c) { return b(d(a)<=d(c)); }
  public static Value REq(final Value a, final Value c) { return b(d(a)==d(c)); }
  public static Value RFinite(final Value a) { double x=d(a); return b(!Double.isNaN(x)&&!Double.isInfinite(x)); }
  public static Value RNaN(final Value a) { return b(Double.isNaN(d(a))); }
  public static Value RNear(final Value a, final Value c, final Value t) { return b(Math.abs(d(a)-d(c))<=d(t)); }
  public static Value RInt(final Value a) { return IntValue.gen((int)Math.rint(d(a))); }
  public static Value RShow(final Value a) { return new StringValue(Double.toString(d(a))); }

  // columns
  public static Value VLen(final Value a) { return IntValue.gen(((TupleValue)a.toTuple()).elems.length/2); }
  public static Value VGet(final Value a, final Value i) {
    Value[] e = ((TupleValue)a.toTuple()).elems; int k = ((IntValue)i).val-1;
    return new TupleValue(new Value[]{e[2*k], e[2*k+1]});
  }
  public static Value VSum(final Value a) {
    double s=0,c=0; for (double x: col(a)) { double y=x-c, t=s+y; c=(t-s)-y; s=t; } return v(s);
  }
  public static Value VDot(final Value a, final Value c) {
    double[] x=col(a), y=col(c); double s=0; for (int i=0;i<x.length;i++) s+=x[i]*y[i]; return v(s);
  }
  public static Value VShift(final Value a, final Value k) {
    double[] x=col(a); double q=d(k); for (int i=0;i<x.length;i++) x[i]-=q; return flat(x);
  }
  public static Value VScale(final Value a, final Value k) {
    double[] x=col(a); double q=d(k); for (int i=0;i<x.length;i++) x[i]*=q; return flat(x);
  }
  public static Value VAdd(final Value a, final Value c) {
    double[] x=col(a), y=col(c); for (int i=0;i<x.length;i++) x[i]+=y[i]; return flat(x);
  }
  public static Value VMaxAbs(final Value a) {
    double m=0; for (double x: col(a)) { if (Double.isNaN(x)) return v(x); m=Math.max(m,Math.abs(x)); } return v(m);
  }
  public static Value VAllFinite(final Value a) {
    for (double x: col(a)) if (Double.isNaN(x)||Double.isInfinite(x)) return b(false); return b(true);
  }
  public static Value VNear(final Value a, final Value c, final Value t) {
    double[] x=col(a), y=col(c); double q=d(t);
    if (x.length!=y.length) return b(false);
    for (int i=0;i<x.length;i++) if (!(Math.abs(x[i]-y[i])<=q)) return b(false);
    return b(true);
  }
  /** Column j (1-based) of a row-major flat matrix with m columns. */
  public static Value VCol(final Value a, final Value j, final Value m) {
    Value[] e = ((TupleValue)a.toTuple()).elems; int k=((IntValue)j).val-1, w=((IntValue)m).val, n=e.length/2/w;
    Value[] r = new Value[2*n];
    for (int i=0;i<n;i++) { r[2*i]=e[2*(i*w+k)]; r[2*i+1]=e[2*(i*w+k)+1]; }
    return new TupleValue(r);
  }
  /** Elements lo..hi (1-based). */
  public static Value VSlice(final Value a, final Value lo, final Value hi) {
    Value[] e = ((TupleValue)a.toTuple()).elems; int p=((IntValue)lo).val-1, q=((IntValue)hi).val;
    if (q<p) q=p;
    Value[] r = new Value[2*(q-p)];
    System.arraycopy(e, 2*p, r, 0, r.length);
    return new TupleValue(r);
  }
  public static Value VCat(final Value a, final Value c) {
    Value[] e = ((TupleValue)a.toTuple()).elems, f = ((TupleValue)c.toTuple()).elems;
    Value[] r = new Value[e.length+f.length];
    System.arraycopy(e,0,r,0,e.length); System.arraycopy(f,0,r,e.length,f.length);
    return new TupleValue(r);
  }
}
