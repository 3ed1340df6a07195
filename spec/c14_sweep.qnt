// C14/C15: complete sweeps of the transfer functions.
// The state is a work list of intervals.  A step takes the first one and fits a
// quartic through five exact values; if the quartic is within an eighth of the
// rounding tolerance of the curve at four further points, the interval becomes a
// patch (an event the replayer sweeps float by float), otherwise it is split.
module c14_sweep {
  import otf.* from "./otf"
  export otf.*

  type W = { id: int, sg: int, lo: int, hi: int, g: int }
  var work: List[W]

  pure def w(id: int, sg: int, lo: int, hi: int): W = { id: id, sg: sg, lo: lo, hi: hi, g: ONE }
  pure def wg(id: int, lo: int, hi: int, g: int): W = { id: id, sg: 1, lo: lo, hi: hi, g: g }
  // just outside a joint: the last bit of the threshold constant is free
  pure def above(k) = k + k / 2^22
  pure def below(k) = k - k / 2^22

  pure def poly(c, u) = c[0] + fmul(u, c[1] + fmul(u, c[2] + fmul(u, c[3] + fmul(u, c[4]))))
  pure def at(i: W, k: int): int = seg(i.id, i.sg, i.lo + (i.hi - i.lo) * (4 + k) / 8, i.g)    // k = -4 .. 4
  pure def fit(i) = {
    val y0 = at(i, -4)
    val y1 = at(i, -2)
    val y2 = at(i, 0)
    val y3 = at(i, 2)
    val y4 = at(i, 4)
    [ y2, (y0 - 8 * y1 + 8 * y3 - y4) / 6, (-y0 + 16 * y1 - 30 * y2 + 16 * y3 - y4) / 6,
      (-y0 + 2 * y1 - 2 * y3 + y4) * 2 / 3, (y0 - 4 * y1 + 6 * y2 - 4 * y3 + y4) * 2 / 3 ]
  }
  pure def res(i, c, k) = iabs(poly(c, k * ONE / 4) - at(i, k))
  pure def mid(i) = (i.lo + i.hi) / 2
  pure def tolOf(i: W): int = imin(T(i.id, i.lo, i.g), T(i.id, i.hi, i.g))
  pure def rtOf(i: W): int = {
    val m = imax3(RT(i.id, i.lo, i.g), RT(i.id, mid(i), i.g), RT(i.id, i.hi, i.g))
    m + m / 2 }

  action pop(l: List[W], e: Ev): bool = all { work' = l, ev' = e }
  action step =
    if (work.length() == 0) pop([], mk("done", [], [], []))
    else {
      val i = work[0]
      val rest = work.tail()
      if (i.lo > 0 and i.hi > 2 * i.lo + ONE / 2^60)
        pop([{ ...i, hi: 2 * i.lo }, { ...i, lo: 2 * i.lo }].concat(rest), mk("split", [], [], []))
      else {
        val c = fit(i)
        val r = imax(imax(res(i, c, -3), res(i, c, -1)), imax(res(i, c, 1), res(i, c, 3)))
        val t = tolOf(i)
        val th = imax3(T(i.id, i.lo, i.g), T(i.id, mid(i), i.g), T(i.id, i.hi, i.g))
        if (r > t / 8 + 2^30 and (i.hi - i.lo) * 2^12 > i.hi) {
          val m = mid(i)
          pop([{ ...i, hi: m }, { ...i, lo: m }].concat(rest), mk("split", [], [], []))
        } else
          // outputs of the replayer: worst deviation / tolerance, worst round trip / tolerance,
          // worst decrease / tolerance, number of NaNs; then where, and how many floats
          pop(rest, mk("sweep", [i.id * ONE, i.g, i.lo, i.hi, c[0], c[1], c[2], c[3], c[4], th + r, rtOf(i)],
            [0, 0, 0, 0, 0, 0, 0, 0], [ONE, ONE, ONE, 0, -1, -1, -1, -1]))
      }
    }

  pure val TINY = ONE / 2^40
  action start(l: List[W]): bool = all { work' = l, ev' = NOEV }
  action init0 = start([w(0, 0, TINY, below(KINK[0])), w(0, 1, above(KINK[0]), ONE),
                        w(1, 0, TINY, below(KINK[1])), w(1, 1, above(KINK[1]), ONE)])
  action init1 = start([w(2, 0, TINY, below(KINK[2])), w(2, 1, above(KINK[2]), ONE),
                        w(3, 0, TINY, below(KINK[3])), w(3, 1, above(KINK[3]), below(dec(81243, 6))), w(3, 1, dec(81243, 6), ONE)])
  action init2 = start([w(4, 1, TINY, below(100 * ONE))])
  action init3 = start([w(5, 1, above(V0), ONE)])
  action init4 = start([w(6, 1, TINY, 10 * ONE), w(7, 1, dec(30001, 6), dec(15, 1)),
                        w(8, 1, TINY, 64 * ONE), w(9, 1, above(KINK[9]), dec(15, 1))])
  action init5 = start([w(10, 0, -ONE / 8, -TINY), w(10, 0, TINY, below(KINK[10])), w(10, 1, above(KINK[10]), 64 * ONE), w(11, 0, -ONE / 4, -TINY),
                        w(11, 0, TINY, below(KINK[11])), w(11, 1, above(KINK[11]), dec(15, 1))])
  action init6 = start([w(12, 0, TINY, below(ONE)), w(12, 1, above(ONE), 1000 * ONE),
                        w(13, 0, TINY, below(ONE / 2)), w(13, 1, above(ONE / 2), 2 * ONE)])
  action init7 = start([wg(14, TINY, 16 * ONE, toF32(dec(22, 1))), wg(15, ONE / 2^12, 16 * ONE, toF32(dec(22, 1))),
                        wg(14, ONE / 2^16, ONE, toF32(dec(24, 1))), wg(15, ONE / 2^8, ONE, toF32(dec(26, 1))),
                        wg(14, ONE / 2^16, ONE, toF32(dec(18, 1)))])

  // S-Log2 below black (8, toe) is swept by value only: decoding clamps it
  val laws = work.length() < 200
}
