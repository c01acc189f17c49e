package avm;

import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.IValue;
import tlc2.value.impl.*;
import util.UniqueString;

/**
 * TLC override of the module F64: IEEE-754 double precision arithmetic.
 * A double is the pair of the upper and lower halves of its bits, an integer stands for itself.
 */
public class AvmOverrides implements ITLCOverrides {
    @Override
    public Class[] get() {
        return new Class[] { AvmOverrides.class };
    }

    private static double d(final Value v) {
        if (v instanceof IntValue) {
            return ((IntValue) v).val;
        }
        if (v instanceof TupleValue) {
            final Value[] e = ((TupleValue) v).elems;
            if (e.length == 2 && e[0] instanceof IntValue && e[1] instanceof IntValue) {
                final long bits = ((long) ((IntValue) e[0]).val << 32) | (((IntValue) e[1]).val & 0xffffffffL);
                return Double.longBitsToDouble(bits);
            }
        }
        final Value t = (Value) v.toTuple();
        if (t != null && t != v) {
            return d(t);
        }
        throw new RuntimeException("F64: not a number: " + v);
    }

    private static Value v(final double x) {
        final long bits = Double.doubleToRawLongBits(x);
        return new TupleValue(new Value[] { IntValue.gen((int) (bits >> 32)), IntValue.gen((int) bits) });
    }

    private static Value b(final boolean x) {
        return x ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    private static Value[] seq(final Value v) {
        final Value t = v instanceof TupleValue ? v : (Value) v.toTuple();
        if (t == null) {
            throw new RuntimeException("F64: not a sequence: " + v);
        }
        return ((TupleValue) t).elems;
    }

    @TLAPlusOperator(identifier = "FInt", module = "F64", warn = false)
    public static Value fint(final Value a) { return v(d(a)); }

    @TLAPlusOperator(identifier = "FLit", module = "F64", warn = false)
    public static Value flit(final StringValue s) { return v(Double.parseDouble(s.val.toString())); }

    @TLAPlusOperator(identifier = "FShow", module = "F64", warn = false)
    public static Value fshow(final Value a) { return new StringValue(Double.toString(d(a))); }

    @TLAPlusOperator(identifier = "FAdd", module = "F64", warn = false)
    public static Value fadd(final Value a, final Value c) { return v(d(a) + d(c)); }

    @TLAPlusOperator(identifier = "FSub", module = "F64", warn = false)
    public static Value fsub(final Value a, final Value c) { return v(d(a) - d(c)); }

    @TLAPlusOperator(identifier = "FMul", module = "F64", warn = false)
    public static Value fmul(final Value a, final Value c) { return v(d(a) * d(c)); }

    @TLAPlusOperator(identifier = "FDiv", module = "F64", warn = false)
    public static Value fdiv(final Value a, final Value c) { return v(d(a) / d(c)); }

    @TLAPlusOperator(identifier = "FNeg", module = "F64", warn = false)
    public static Value fneg(final Value a) { return v(-d(a)); }

    @TLAPlusOperator(identifier = "FAbs", module = "F64", warn = false)
    public static Value fabs(final Value a) { return v(Math.abs(d(a))); }

    @TLAPlusOperator(identifier = "FMin", module = "F64", warn = false)
    public static Value fmin(final Value a, final Value c) { return v(Math.min(d(a), d(c))); }

    @TLAPlusOperator(identifier = "FMax", module = "F64", warn = false)
    public static Value fmax(final Value a, final Value c) { return v(Math.max(d(a), d(c))); }

    @TLAPlusOperator(identifier = "FSqrt", module = "F64", warn = false)
    public static Value fsqrt(final Value a) { return v(Math.sqrt(d(a))); }

    @TLAPlusOperator(identifier = "FCbrt", module = "F64", warn = false)
    public static Value fcbrt(final Value a) { return v(StrictMath.cbrt(d(a))); }

    @TLAPlusOperator(identifier = "FLog10", module = "F64", warn = false)
    public static Value flog10(final Value a) { return v(StrictMath.log10(d(a))); }

    @TLAPlusOperator(identifier = "FLn", module = "F64", warn = false)
    public static Value fln(final Value a) { return v(StrictMath.log(d(a))); }

    @TLAPlusOperator(identifier = "FExp", module = "F64", warn = false)
    public static Value fexp(final Value a) { return v(StrictMath.exp(d(a))); }

    @TLAPlusOperator(identifier = "FPow", module = "F64", warn = false)
    public static Value fpow(final Value a, final Value c) { return v(StrictMath.pow(d(a), d(c))); }

    @TLAPlusOperator(identifier = "FSin", module = "F64", warn = false)
    public static Value fsin(final Value a) { return v(StrictMath.sin(d(a))); }

    @TLAPlusOperator(identifier = "FCos", module = "F64", warn = false)
    public static Value fcos(final Value a) { return v(StrictMath.cos(d(a))); }

    @TLAPlusOperator(identifier = "FAtan2", module = "F64", warn = false)
    public static Value fatan2(final Value a, final Value c) { return v(StrictMath.atan2(d(a), d(c))); }

    @TLAPlusOperator(identifier = "FFloor", module = "F64", warn = false)
    public static Value ffloor(final Value a) { return IntValue.gen((int) Math.floor(d(a))); }

    @TLAPlusOperator(identifier = "FLt", module = "F64", warn = false)
    public static Value flt(final Value a, final Value c) { return b(d(a) < d(c)); }

    @TLAPlusOperator(identifier = "FLe", module = "F64", warn = false)
    public static Value fle(final Value a, final Value c) { return b(d(a) <= d(c)); }

    @TLAPlusOperator(identifier = "FEq", module = "F64", warn = false)
    public static Value feq(final Value a, final Value c) { return b(d(a) == d(c)); }

    @TLAPlusOperator(identifier = "FIsNaN", module = "F64", warn = false)
    public static Value fisnan(final Value a) { return b(Double.isNaN(d(a))); }

    @TLAPlusOperator(identifier = "FIsInf", module = "F64", warn = false)
    public static Value fisinf(final Value a) { return b(Double.isInfinite(d(a))); }

    @TLAPlusOperator(identifier = "FSum", module = "F64", warn = false)
    public static Value fsum(final Value s) {
        double r = 0.0;
        for (final Value e : seq(s)) {
            r += d(e);
        }
        return v(r);
    }

    @TLAPlusOperator(identifier = "FDot", module = "F64", warn = false)
    public static Value fdot(final Value s, final Value t) {
        final Value[] p = seq(s), q = seq(t);
        if (p.length != q.length) {
            throw new RuntimeException("FDot: lengths " + p.length + " and " + q.length);
        }
        double r = 0.0;
        for (int i = 0; i < p.length; i++) {
            r += d(p[i]) * d(q[i]);
        }
        return v(r);
    }
}
