import java.math.BigInteger;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.Value;

/** TLC module override for GF.tla (big): arithmetic modulo p on decimal strings. */
public class GF {
  private static String lastP = "";
  private static BigInteger lastPV = BigInteger.ONE;

  private static BigInteger g(final Value v) {
    return new BigInteger(((StringValue) v).getVal().toString());
  }

  private static synchronized BigInteger p(final Value v) {
    final String s = ((StringValue) v).getVal().toString();
    if (!s.equals(lastP)) {
      lastPV = new BigInteger(s);
      lastP = s;
    }
    return lastPV;
  }

  private static Value w(final BigInteger x) {
    return new StringValue(x.toString());
  }

  public static Value FAddP(final Value p, final Value a, final Value b) {
    return w(g(a).add(g(b)).mod(p(p)));
  }

  public static Value FMulP(final Value p, final Value a, final Value b) {
    return w(g(a).multiply(g(b)).mod(p(p)));
  }

  public static Value FNegP(final Value p, final Value a) {
    return w(g(a).negate().mod(p(p)));
  }

  public static Value FInvP(final Value p, final Value a) {
    final BigInteger x = g(a).mod(p(p));
    return x.signum() == 0 ? w(x) : w(x.modInverse(p(p)));
  }

  public static Value FLimb(final Value a, final Value k) {
    return IntValue.gen(g(a).shiftRight(16 * (((IntValue) k).val - 1)).intValue() & 0xffff);
  }
}
