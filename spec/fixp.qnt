// Fixed-point real arithmetic on unbounded integers: the real number x is
// represented by round(x * 2^96).  Every function is accurate to at least
// 2^-56 relative (checked by selftest.qnt); the specifications of the colour
// mathematics are written on top of it, so they are exact compared with the
// single-precision code they are the oracle for.
module fixp {
  pure val PB = 96
  pure val ONE = 2^96
  pure val HALF = 2^95
  pure val EPS24 = 2^72          // 2^-24: half an ulp of a float32 at 1.0
  pure val PI  = 248902613312231085230521944622      // pi * 2^96 (checked in selftest)
  pure val LN2 = 54916777467707473351141471128

  pure def iabs(a) = if (a < 0) -a else a
  pure def imin(a, b) = if (a < b) a else b
  pure def imax(a, b) = if (a > b) a else b
  pure def imax3(a, b, c) = imax(a, imax(b, c))
  pure def imin3(a, b, c) = imin(a, imin(b, c))
  pure def sgn(a) = if (a < 0) -1 else if (a > 0) 1 else 0

  pure def fmul(a, b) = a * b / ONE
  pure def fdiv(a, b) = a * ONE / b
  pure def fsq(a) = a * a / ONE
  pure def fint(n) = n * ONE
  // the rational n/d
  pure def rat(n, d) = n * ONE / d
  // decimal constant n * 10^-k
  pure def dec(n, k) = n * ONE / 10^k

  // number of bits of a positive integer (up to 1023 bits); 0 for 0
  pure def bitlen(n) =
    if (n <= 0) 0 else
    [512, 256, 128, 64, 32, 16, 8, 4, 2, 1].foldl((n, 1),
      (s, k) => { val q = s._1 / 2^k if (q > 0) (q, s._2 + k) else s })._2

  // floor-ish integer square root (error at most 1)
  pure def isqrt(n) =
    if (n <= 0) 0 else {
      val x0 = 2^((bitlen(n) + 1) / 2)
      val x1 = (x0 + n / x0) / 2
      val x2 = (x1 + n / x1) / 2
      val x3 = (x2 + n / x2) / 2
      val x4 = (x3 + n / x3) / 2
      val x5 = (x4 + n / x4) / 2
      val x6 = (x5 + n / x5) / 2
      (x6 + n / x6) / 2
    }
  pure def fsqrt(a) = isqrt(a * ONE)

  pure def icbrtStep(x, n) = (2 * x + n / (x * x)) / 3
  pure def icbrt(n) =
    if (n <= 0) 0 else {
      val x0 = 2^((bitlen(n) + 2) / 3)
      val x1 = icbrtStep(x0, n)
      val x2 = icbrtStep(x1, n)
      val x3 = icbrtStep(x2, n)
      val x4 = icbrtStep(x3, n)
      val x5 = icbrtStep(x4, n)
      val x6 = icbrtStep(x5, n)
      val x7 = icbrtStep(x6, n)
      icbrtStep(x7, n)
    }
  // real cube root, signed
  pure def fcbrt(a) = if (a < 0) -icbrt(-a * ONE * ONE) else icbrt(a * ONE * ONE)

  // exp(x) for |x| < 400
  pure def fexp(x) = {
    val k = (2 * x + (if (x < 0) -LN2 else LN2)) / (2 * LN2)
    val r = (x - k * LN2) / 16
    val t0 = ONE + r / 11
    val t1 = ONE + r * t0 / (ONE * 10)
    val t2 = ONE + r * t1 / (ONE * 9)
    val t3 = ONE + r * t2 / (ONE * 8)
    val t4 = ONE + r * t3 / (ONE * 7)
    val t5 = ONE + r * t4 / (ONE * 6)
    val t6 = ONE + r * t5 / (ONE * 5)
    val t7 = ONE + r * t6 / (ONE * 4)
    val t8 = ONE + r * t7 / (ONE * 3)
    val t9 = ONE + r * t8 / (ONE * 2)
    val e0 = ONE + r * t9 / ONE
    val e1 = fsq(e0)
    val e2 = fsq(e1)
    val e3 = fsq(e2)
    val e4 = fsq(e3)
    if (k >= 0) e4 * 2^k else e4 / 2^(-k)
  }

  // natural logarithm of a > 0
  pure def fln(a) = {
    val b = bitlen(a)
    val m0 = if (b >= 97) a / 2^(b - 97) else a * 2^(97 - b)      // in [1,2)
    val big = m0 > 112045541949572279837463876454              // sqrt2
    val m = if (big) m0 / 2 else m0
    val k = if (big) b - 96 else b - 97
    val z = (m - ONE) * ONE / (m + ONE)
    val w = fsq(z)
    val s0 = ONE / 27 + w / 29
    val s1 = ONE / 25 + w * s0 / ONE
    val s2 = ONE / 23 + w * s1 / ONE
    val s3 = ONE / 21 + w * s2 / ONE
    val s4 = ONE / 19 + w * s3 / ONE
    val s5 = ONE / 17 + w * s4 / ONE
    val s6 = ONE / 15 + w * s5 / ONE
    val s7 = ONE / 13 + w * s6 / ONE
    val s8 = ONE / 11 + w * s7 / ONE
    val s9 = ONE / 9 + w * s8 / ONE
    val sa = ONE / 7 + w * s9 / ONE
    val sb = ONE / 5 + w * sa / ONE
    val sc = ONE / 3 + w * sb / ONE
    val sd = ONE + w * sc / ONE
    2 * fmul(z, sd) + k * LN2
  }

  // a^y for a >= 0 (0^y = 0)
  pure def fpow(a, y) = if (a <= 0) 0 else fexp(fmul(y, fln(a)))

  // arctangent of 0 <= x <= 1
  pure def atan01(x) = {
    val a = fdiv(x, ONE + fsqrt(ONE + fsq(x)))            // <= 0.4143
    val b = fdiv(a, ONE + fsqrt(ONE + fsq(a)))            // <= 0.1990
    val w = fsq(b)
    val s0 = ONE / 25 - w / 27
    val s1 = ONE / 23 - w * s0 / ONE
    val s2 = ONE / 21 - w * s1 / ONE
    val s3 = ONE / 19 - w * s2 / ONE
    val s4 = ONE / 17 - w * s3 / ONE
    val s5 = ONE / 15 - w * s4 / ONE
    val s6 = ONE / 13 - w * s5 / ONE
    val s7 = ONE / 11 - w * s6 / ONE
    val s8 = ONE / 9 - w * s7 / ONE
    val s9 = ONE / 7 - w * s8 / ONE
    val sa = ONE / 5 - w * s9 / ONE
    val sb = ONE / 3 - w * sa / ONE
    4 * (b - fmul(b, fmul(w, sb)))
  }
  // atan2 in (-pi, pi]; 0 for (0,0)
  pure def fatan2(y, x) =
    if (x == 0 and y == 0) 0 else {
      val ax = iabs(x)
      val ay = iabs(y)
      val t = if (ay <= ax) atan01(fdiv(ay, ax)) else PI / 2 - atan01(fdiv(ax, ay))
      val u = if (x < 0) PI - t else t
      if (y < 0) -u else u
    }

  // sine and cosine of |r| <= pi/4
  pure def sinK(r) = {
    val w = fsq(r)
    val s0 = ONE - w / (16 * 17)
    val s1 = ONE - w * s0 / (ONE * 14 * 15)
    val s2 = ONE - w * s1 / (ONE * 12 * 13)
    val s3 = ONE - w * s2 / (ONE * 10 * 11)
    val s4 = ONE - w * s3 / (ONE * 8 * 9)
    val s5 = ONE - w * s4 / (ONE * 6 * 7)
    val s6 = ONE - w * s5 / (ONE * 4 * 5)
    val s7 = ONE - w * s6 / (ONE * 2 * 3)
    fmul(r, s7)
  }
  pure def cosK(r) = {
    val w = fsq(r)
    val s0 = ONE - w / (17 * 18)
    val s1 = ONE - w * s0 / (ONE * 15 * 16)
    val s2 = ONE - w * s1 / (ONE * 13 * 14)
    val s3 = ONE - w * s2 / (ONE * 11 * 12)
    val s4 = ONE - w * s3 / (ONE * 9 * 10)
    val s5 = ONE - w * s4 / (ONE * 7 * 8)
    val s6 = ONE - w * s5 / (ONE * 5 * 6)
    val s7 = ONE - w * s6 / (ONE * 3 * 4)
    ONE - w * s7 / (ONE * 2)
  }
  pure def fcos(x) = {
    val q = (2 * iabs(x) + PI / 2) / PI
    val r = iabs(x) - q * PI / 2
    val m = q % 4
    if (m == 0) cosK(r) else if (m == 1) -sinK(r) else if (m == 2) -cosK(r) else sinK(r)
  }
  pure def fsin(x) = {
    val q = (2 * iabs(x) + PI / 2) / PI
    val r = iabs(x) - q * PI / 2
    val m = q % 4
    val s = if (m == 0) sinK(r) else if (m == 1) cosK(r) else if (m == 2) -sinK(r) else -cosK(r)
    if (x < 0) -s else s
  }

  // ---- inputs ---------------------------------------------------------------
  // bits [lo, lo+w) of a random word
  pure def bits(r, lo, w) = r / 2^lo % 2^w
  // round to a 24-bit significand (so that the value is a float32): truncation
  pure def toF32(a) =
    if (a < 0) {
      val b = bitlen(-a)
      if (b <= 24) a else -((-a) / 2^(b - 24) * 2^(b - 24))
    } else {
      val b = bitlen(a)
      if (b <= 24) a else a / 2^(b - 24) * 2^(b - 24)
    }
  pure def isF32(a) = toF32(a) == a
}
