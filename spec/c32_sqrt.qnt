// C32: the square root of every float32.
// Every positive float is x * 4^e with 1 <= x < 4; the square root is sqrt(x) * 2^e.
// The state is a work list over [1, 4]; a step turns the first interval into a quartic
// patch that is proven close enough at four further points, or splits it.  The
// replayer sweeps each patch float by float for every exponent e.
module c32_sqrt {
  import linalg.* from "./linalg"
  export linalg.*
  type W = { lo: int, hi: int }
  var work: List[W]
  pure def at(i: W, k: int): int = fsqrt(i.lo + (i.hi - i.lo) * (4 + k) / 8)
  pure def poly(c: List[int], u: int): int = c[0] + fmul(u, c[1] + fmul(u, c[2] + fmul(u, c[3] + fmul(u, c[4]))))
  pure def fit(i: W): List[int] = {
    val y0 = at(i, -4)
    val y1 = at(i, -2)
    val y2 = at(i, 0)
    val y3 = at(i, 2)
    val y4 = at(i, 4)
    [ y2, (y0 - 8 * y1 + 8 * y3 - y4) / 6, (-y0 + 16 * y1 - 30 * y2 + 16 * y3 - y4) / 6,
      (-y0 + 2 * y1 - 2 * y3 + y4) * 2 / 3, (y0 - 4 * y1 + 6 * y2 - 4 * y3 + y4) * 2 / 3 ] }
  pure def res(i: W, c: List[int], k: int): int = iabs(poly(c, k * ONE / 4) - at(i, k))
  action pop(l: List[W], e: Ev): bool = all { work' = l, ev' = e }
  action step =
    if (work.length() == 0) pop([], mk("done", [], [], []))
    else {
      val i = work[0]
      val c = fit(i)
      val r = imax(imax(res(i, c, -3), res(i, c, -1)), imax(res(i, c, 1), res(i, c, 3)))
      if (r > ONE / 2^36) {
        val m = (i.lo + i.hi) / 2
        pop([{ lo: i.lo, hi: m }, { lo: m, hi: i.hi }].concat(work.tail()), mk("split", [], [], []))
      } else
        // worst relative deviation in units of 3 * 2^-24, NaNs, where, how many
        pop(work.tail(), mk("sqrt_sweep", [i.lo, i.hi, c[0], c[1], c[2], c[3], c[4], ONE * 3 / 2^24],
          [0, 0, 0, 0], [ONE, 0, -1, -1]))
    }
  action start(k: int): bool = all { work' = [{ lo: ONE + 3 * k * ONE / 8, hi: ONE + 3 * (k + 1) * ONE / 8 }], ev' = NOEV }
  action init0 = start(0)
  action init1 = start(1)
  action init2 = start(2)
  action init3 = start(3)
  action init4 = start(4)
  action init5 = start(5)
  action init6 = start(6)
  action init7 = start(7)

  // single values; each also at compile time
  action initV = all { work' = [], ev' = NOEV }
  action value = {
    nondet w = 0.to(2^60 - 1).oneOf()
    val k = w % 8
    val x = if (k == 0) (w / 8 % 2000) * ONE
      else if (k == 1) { val q = w / 8 % 2^12 q * q * ONE / 2^(2 * (w / 2^20 % 20)) }      // perfect squares
      else if (k == 2) toF32((2^24 - 1 - w / 8 % 4) * 2^(72 + w / 2^20 % 80))              // just below powers of two
      else (2^23 + w / 8 % 2^23) * 2^(w / 2^36 % 160)
    val r = fsqrt(x)
    emit(mk("sqrt", [x], [r], [if (x == 0) 0 else r * 3 / 2^24 + 1]))
  }
  // not representable here: 0 -0 -1 -largest -smallest infinity -infinity NaN, smallest subnormal, smallest normal, largest
  action special = emit(mk("sqrt_special", [], [0, 0, 0, 0, 0, 0, 0, 0], [0, 0, -2, -2, -2, -2, -2, -2]))
  // the ends of the number range: exponents -149 .. -120 and 100 .. 127, each with the first, last and random significands
  action ends = {
    nondet w = 0.to(2^60 - 1).oneOf()
    val m = if (w % 3 == 0) 2^23 else if (w % 3 == 1) 2^24 - 1 else 2^23 + w / 8 % 2^23
    val e = if (w / 4 % 2 == 0) 104 - w / 2^40 % 24 else -126 - 23 + w / 2^40 % 24
    // subnormals: fewer digits
    val k = if (w / 2^50 % 4 == 0) w / 2^45 % 24 else 0
    val n = if (e < 0 and k > 0) m / 2^k else m
    val ee = if (e < 0 and k > 0) -149 else e
    // the value is n * 2^ee; its root has 96 + 128 binary places here, then is rounded to the events' 96
    val r = isqrt(if (ee >= 0) n * 2^(ee + 448) else n * 2^(448 + ee)) / 2^128
    emit(mk("sqrt_end", [n * ONE, ee * ONE], [r], [r * 3 / 2^24 + 2]))
  }
  action stepV = all { work' = work, any { value, value, value, value, special, ends } }
  val laws = work.length() < 60 and (ev.op != "sqrt" or iabs(fsq(ev.e[0]) - ev.a[0]) <= ev.a[0] / 2^30 + 2^60)
}
