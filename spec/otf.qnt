// The published transfer functions, over the reals, with a model of the rounding
// error a float32 evaluation may make.
// Curve ids: 0 sRGB, 2 BT.709, 4 ST 2084, 6 S-Log, 8 S-Log2, 10 S-Log3, 12 HLG, 14 gamma;
// even: scene to signal, odd: signal to scene.
module otf {
  import linalg.* from "./linalg"
  export linalg.*

  pure val LN10 = fln(10 * ONE)
  pure def flog10(x) = fdiv(fln(x), LN10)
  pure def fexp10(x) = fexp(fmul(x, LN10))
  pure def inv(id) = if (id % 2 == 0) id + 1 else id - 1

  // ---- ST 2084, L in units of 100 cd/m2 ------------------------------------------
  pure val M1 = rat(2610, 16384)
  pure val M2 = rat(2523 * 128, 4096)
  pure val C1 = rat(3424, 4096)
  pure val C2 = rat(2413 * 32, 4096)
  pure val C3 = rat(2392 * 32, 4096)
  pure def pqN(y) = { val lm = fpow(y / 100, M1) fdiv(C1 + fmul(C2, lm), ONE + fmul(C3, lm)) }
  pure def pqEnc(y) = if (y <= 0) 0 else if (y >= 100 * ONE) ONE else fpow(pqN(y), M2)
  pure def pqFromNp(np) = { val l = imax(np - C1, 0) 100 * fpow(fdiv(l, C2 - fmul(C3, np)), fdiv(ONE, M1)) }
  pure def pqNp(v) = fpow(v, fdiv(ONE, M2))
  pure def pqDec(v) = if (v <= 0) 0 else pqFromNp(pqNp(v))
  // enclosure half-width when Np carries a relative error of k * 2^-24
  pure def pqDecErr(v, k) = if (v <= 0) 0 else {
    val np = pqNp(v)
    val d = ulps(k, np)
    pqFromNp(np + d) - pqFromNp(imax(np - d, 0)) }
  pure val V0 = fpow(C1, M2)                       // the signal of black

  // ---- per-segment formulas (seg 0: toe, seg 1: main) -----------------------------
  pure def slogLog(x) = fmul(dec(432699, 6), flog10(x + dec(37584, 6))) + dec(646596, 6)
  pure def slogExp(s) = fexp10(fdiv(s - dec(646596, 6), dec(432699, 6))) - dec(37584, 6)
  pure val S2A = rat(353881278538813, 10^14)
  pure val S2B = rat(30001222851889303, 10^18)
  pure val HA = dec(17883277, 8)
  pure val HB = dec(28466892, 8)
  pure val HC = dec(55991073, 8)
  pure def seg(id, sg, x, g) =
    if (id == 0) { if (sg == 0) x * 1292 / 100 else fmul(dec(1055, 3), fpow(x, rat(5, 12))) - dec(55, 3) }
    else if (id == 1) { if (sg == 0) x * 100 / 1292 else fpow((x + dec(55, 3)) * 1000 / 1055, dec(24, 1)) }
    else if (id == 2) { if (sg == 0) x * 45 / 10 else fmul(dec(1099, 3), fpow(x, dec(45, 2))) - dec(99, 3) }
    else if (id == 3) { if (sg == 0) x * 10 / 45 else fpow((x + dec(99, 3)) * 1000 / 1099, rat(100, 45)) }
    else if (id == 4) pqEnc(x)
    else if (id == 5) pqDec(x)
    else if (id == 6) slogLog(x)
    else if (id == 7) slogExp(x)
    else if (id == 8) ({ val ire = if (sg == 0) fmul(x, S2A) + S2B else slogLog(x * 155 / 219)
                         (ire * 876 + 64 * ONE) / 1024 })
    else if (id == 9) { val ire = (x * 1024 - 64 * ONE) / 876
                        if (sg == 0) 0 else imax(0, slogExp(ire) * 219 / 155) }
    else if (id == 10) { (if (sg == 0) fmul(x, rat(762102946929, 112500000)) + 95 * ONE
                          else 420 * ONE + flog10((x + dec(1, 2)) * 100 / 19) * 2615 / 10) / 1023 }
    else if (id == 11) { if (sg == 0) fmul(x * 1023 - 95 * ONE, rat(112500000, 762102946929))
                         else fexp10((x * 1023 - 420 * ONE) * 10 / 2615) * 19 / 100 - dec(1, 2) }
    else if (id == 12) { if (sg == 0) fsqrt(x) / 2 else fmul(HA, fln(x - HB)) + HC }
    else if (id == 13) { if (sg == 0) 4 * fsq(x) else fexp(fdiv(x - HC, HA)) + HB }
    else if (id == 14) fpow(x, fdiv(ONE, g))
    else fpow(x, g)

  pure val KINK = [dec(31308, 7), dec(4045, 5), dec(18, 3), dec(81, 3), 0, V0, 0, 0, 0,
                   (S2B * 876 + 64 * ONE) / 1024, dec(1125, 5), rat(1712102946929, 10230000000000), ONE, ONE / 2, 0, 0]
  // the whole function, with its clamps
  pure def F(id, x, g) =
    if (id <= 3) { if (x < 0) 0 else if (x > ONE) ONE else seg(id, if (x < KINK[id]) 0 else 1, x, g) }
    else if (id == 6) seg(6, 1, imax(0, imin(x, 10 * ONE)), g)
    else if (id == 12 and x < 0) 0
    else if (id == 13 and x < 0) 0
    else seg(id, if (x < KINK[id]) 0 else 1, x, g)

  pure def alog(x) = if (x <= 0) 0 else iabs(fln(x))
  // rounding error of a float32 evaluation, absolute
  pure def T(id, x, g) = {
    val y = F(id, x, g)
    val lo = x < KINK[id]
    if (id == 0) { if (lo) ulps(4, y) else ulps(4, fmul(y + dec(55, 3), ONE + alog(x) / 4) + dec(55, 3)) }
    else if (id == 1) { if (lo) ulps(4, y) else ulps(10, fmul(y, ONE + alog((x + dec(55, 3)) * 1000 / 1055) / 2)) }
    else if (id == 2) { if (lo) ulps(4, y) else ulps(4, fmul(y + dec(99, 3), ONE + alog(x) / 4) + dec(99, 3)) }
    else if (id == 3) { if (lo) ulps(4, y) else ulps(10, fmul(y, ONE + alog((x + dec(99, 3)) * 1000 / 1099) / 2)) }
    else if (id == 4) { if (x <= 0 or x >= 100 * ONE) 0 else ulps(440, y) }
    else if (id == 5) { if (x <= 0) 0 else pqDecErr(x, 5) + ulps(40, y) }
    else if (id == 6) ulps(5, ONE)
    else if (id == 7) ulps(4, y + ONE / 10) + fmul(y + dec(37584, 6), ulps(18, imax(iabs(x), ONE / 4) + ONE / 2))
    else if (id == 8) ulps(6, imax(ONE, iabs(y)))
    else if (id == 9) ulps(6, y + ONE / 10) + fmul(y + ONE / 10, ulps(36, imax(iabs(x), ONE / 4) + ONE / 2))
    else if (id == 10) ulps(6, imax(ONE, iabs(y)))
    else if (id == 11) { if (lo) ulps(8, iabs(y) + ONE / 50) else ulps(6, iabs(y) + ONE / 50) + fmul(y + ONE / 50, ulps(40, imax(ONE / 4, iabs(x)))) }
    else if (id == 12) { if (lo) ulps(3, y) else ulps(6, imax(ONE, y)) }
    else if (id == 13) { if (lo) ulps(4, y) else ulps(2, y) + fmul(y, ulps(20, ONE + x / 2)) }
    else if (id == 14) ulps(5, fmul(y, ONE + fdiv(alog(x), g) / 2))
    else ulps(5, fmul(y, ONE + fmul(alog(x), g) / 2))
  }
  // width of the published curve's own mismatch at its joint, for inputs next to it
  pure def nearKink(id, x) = KINK[id] > 0 and iabs(x - KINK[id]) <= KINK[id] / 2^20
  pure def gap(id, x, g) = if (id < 14 and id != 4 and id != 5 and id != 9 and nearKink(id, x)) iabs(seg(id, 0, x, g) - seg(id, 1, x, g)) else 0
  pure def TP(id, x, g) = T(id, x, g) + gap(id, x, g)
  // round-trip error of inv(id) after id, absolute in x
  pure def RT(id, x, g) = {
    val y = F(id, x, g)
    val d = TP(id, x, g)
    val i = inv(id)
    val yl = imax(y - d, if (id == 8 or id == 10 or id == 11) y - d else 0)
    val a = F(i, y + d, g)
    val b = F(i, yl, g)
    imax(iabs(a - x), iabs(b - x)) + imax(T(i, y, g), T(i, yl, g)) + gap(i, y, g)
  }
}
