// Accuracy of the fixed-point library, checked by identities that hold for the
// exact functions, over random arguments.
module selftest {
  import fixp.* from "./fixp"
  var x: int
  var y: int
  action init = all { x' = ONE, y' = ONE }
  action step = {
    nondet a = 1.to(2^110).oneOf()
    nondet s = 0.to(60).oneOf()
    nondet b = (-(2^100)).to(2^100).oneOf()
    all { x' = a / 2^s + 2^45, y' = b }
  }
  pure def near(a, b, bit) = iabs(a - b) <= imax(2^(96 - bit), imax(iabs(a), iabs(b)) / 2^bit)
  val invSqrt = { val r = fsqrt(x) near(fsq(r), x, 40) }
  val invSqrt2 = { val r = isqrt(x) r * r <= x + 2 * r + 1 and x <= (r + 1) * (r + 1) + r }
  val invCbrt = { val r = fcbrt(x) near(fmul(r, fsq(r)), x, 56) }
  val invExpLn = near(fexp(fln(x)), x, 40)
  val invLnExp = near(fln(fexp(y)), y, 56)
  val invPy = near(fsq(fsin(y)) + fsq(fcos(y)), ONE, 60)
  val invTan = { val t = fatan2(fsin(y), fcos(y))
                 near(fsin(t), fsin(y), 58) and near(fcos(t), fcos(y), 58) }
  val invAdd = near(fsin(2 * y), 2 * fmul(fsin(y), fcos(y)), 58)
  val inv = invSqrt2 and invCbrt and invExpLn and invLnExp and invPy and invTan and invAdd
}
