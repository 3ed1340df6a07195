// C26: blackbody radiation, W/(m2 sr nm)
module c26_planck {
  import linalg.* from "./linalg"
  export linalg.*
  // CODATA: 2 h c^2 = 1.191042972e-16 W m2, h c / k = 1.438776877e-2 m K.  With the wavelength n in nm:
  //   L = 1.191042972e20 / n^5 / (exp(x) - 1) W/(m2 sr nm), x = 1.438776877e7 / (n T)
  pure def xOf(t: int, n: int): int = dec(1438776877, 2) * ONE / n * ONE / t
  pure def planck(t: int, n: int): int = {
    val n5 = fmul(fsq(fsq(n)), n)
    // exp(-x)/(1-exp(-x)), scaled by 2^64 to keep digits when it is tiny
    val e = fexp(-xOf(t, n) + 64 * LN2)
    val q = e * ONE / (ONE - fexp(-xOf(t, n)))
    (1191042972 * 10^11) * ONE * q / n5 / 2^64 }
  pure def tol(t: int, n: int): int = { val x = xOf(t, n) fmul(planck(t, n), dec(6, 7) + fmul(x, dec(1, 7))) + 2 }
  pure def gT(w) = {
    val k = w % 8
    if (k == 0) [1000, 2000, 2856, 3000, 5000, 5600, 6500, 10000][w / 8 % 8] * ONE
    else if (k == 1) (1 + w / 8 % 30) * 1000 * ONE
    else if (k <= 3) gR(w / 8 * 32, 1000 * ONE, 3000 * ONE)
    else gR(w / 8 * 32, 1000 * ONE, 30000 * ONE) }
  // whole and fractional wavelengths
  pure def lam(w) = (380 + w % 400) * ONE + (if (w / 400 % 3 == 0) w / 1200 % 4096 * ONE / 4096 else 0)
  action one = {
    nondet r = 0.to(2^80 - 1).oneOf()
    val t = gT(r % 2^44)
    val n = lam(r / 2^44)
    emit(mk("planck", [t, n], [planck(t, n)], [tol(t, n)]))
  }
  // the whole temperature axis; the value comes scaled by 2^sh (exactly), so that cold bodies keep all their digits
  pure def planckS(t: int, n: int, sh: int): int = {
    val n5 = fmul(fsq(fsq(n)), n)
    val e = fexp(-xOf(t, n) + (64 + sh) * LN2)
    val q = e * ONE / (ONE - fexp(-xOf(t, n)))
    (1191042972 * 10^11) * ONE * q / n5 / 2^64 }
  action wide = {
    nondet r = 0.to(2^80 - 1).oneOf()
    val n = lam(r / 2^44)
    val cold = r % 2 == 0
    // cold: h c / (l k T) between 14 and 95, the radiance stays above the smallest normal float; hot: 2^13 K .. 2^27 K
    val x = 14 * ONE + r / 2 % 2^32 * 81 * ONE / 2^32
    val t = if (cold) toF32(dec(1438776877, 2) * ONE / n * ONE / x) else toF32((2^23 + r / 2 % 2^23) * ONE / 2^(r / 2^55 % 15) * 16)
    val sh = if (cold) 110 else 0
    val v = planckS(t, n, sh)
    emit(mk("planck_wide", [t, n, sh * ONE], [v], [fmul(v, dec(6, 7) + fmul(xOf(t, n), dec(1, 7))) + 2]))
  }
  // colder still: nothing but (almost) zero, never NaN
  action frozen = {
    nondet r = 0.to(2^60 - 1).oneOf()
    val t = toF32((1 + r % 2^20) * 190 * ONE / 2^20)
    emit(mk("planck_frozen", [t, lam(r / 2^44)], [0], [ONE / 2^60]))
  }
  // hotter is brighter
  action up = {
    nondet r = 0.to(2^80 - 1).oneOf()
    val t = gT(r % 2^44)
    val u = t + toF32(t / 2^(1 + r / 2^60 % 12))
    emit(mk("planck_up", [t, toF32(u), lam(r / 2^44)], [ONE], [0]))
  }
  // the blackbody spectrum is the Planck function at 380, 381 .. 779 nm, at every temperature: none of the 400 samples differs
  action samples = {
    nondet r = 0.to(2^60 - 1).oneOf()
    val t = toF32((2^23 + r % 2^23) * ONE / 2^(r / 2^23 % 20) * 16)
    emit(mk("blackbody_samples", [t], [0], [0]))
  }
  action stepSpec = any { spec1, samples }
  action step = any { samples,  one, one, up, wide, wide, frozen }
  action spec1 = {
    nondet w = 0.to(2^44 - 1).oneOf()
    val t = gT(w)
    emit(mk("blackbody", [t], range(0, 400).foldl([], (l, i) => l.append(planck(t, (380 + i) * ONE))),
                              range(0, 400).foldl([], (l, i) => l.append(tol(t, (380 + i) * ONE)))))
  }
  // Wien: the peak of the curve lies at 2.8978e-3 / T
  pure val WIEN = { val t = 5000 * ONE planck(t, dec(57955, 2) ) > planck(t, 575 * ONE) and planck(t, dec(57955, 2)) > planck(t, 585 * ONE) }
  val laws = and { WIEN, ev.op != "planck" or ev.e[0] > 2^28,
    ev.op != "planck_up" or planck(ev.a[1], ev.a[2]) - tol(ev.a[1], ev.a[2]) > planck(ev.a[0], ev.a[2]) + tol(ev.a[0], ev.a[2]) }
}
