// C24: spectrum lookup and resampling
module c24_fetch {
  import spectral.* from "./spectral"
  export spectral.*
  pure def gV(w) = if (w % 8 == 0) gW(w / 8) else gS(w / 8)
  pure def values(n: int, r: int): List[int] = {
    val smooth = r % 4 == 0
    range(0, n).foldl([], (l, i) => l.append(if (smooth) (i * i - 7 * i + 3) * ONE / 64 else gV(slot(r / 4, i)))) }
  pure def gLo(w) = [380, 300, 360, 400, 0, 1, -100, 700, -1000, 1000][w % 10] * ONE + (if (w / 10 % 4 == 0) w / 40 % 64 * ONE / 64 else 0)
  // a few floats below x
  pure def below(x: int, n: int): int = {
    val b = bitlen(iabs(x))
    if (x == 0) -n * 2^40 else x - n * (if (x > 0 and 2^(b - 1) == x) 2^(b - 25) else 2^(b - 24)) }
  pure def gSpan(w) = if (w % 4 == 0) (1 + w / 4 % 8) * ONE else if (w % 16 == 3) (1 + w / 16 % 64) * ONE / 32 else if (w % 4 == 1) 399 * ONE else (10 + w / 4 % 1000) * ONE
  pure val VB = 2^(SLOT * 12 + 2) - 1
  action look1 = {
    nondet r = 0.to(2^100 - 1).oneOf()
    nondet v = 0.to(VB).oneOf()
    val n = 1 + r % 12
    val s = values(n, v)
    val lo = gLo(r / 2^10 % 2^10)
    val hi = if (lo == -1000 * ONE) (r / 2^20 % 2^10 + 1) * ONE / 1024 else lo + gSpan(r / 2^20 % 2^16)
    val k = r / 2^36 % 16
    val w = r / 2^40 % 2^44
    val t = if (k == 0) lo else if (k == 1) hi
      else if (k == 10) below(hi, 1 + w % 4)                                          // one float short of the end
      else if (k == 11) -below(-lo, 1 + w % 4)
      else if (k == 2) lo - (1 + w % 500) * ONE
      else if (k == 3) hi + (1 + w % 500) * ONE
      else if (k == 4) toF32(hi + (1 + w % 2^30) * 2^(96 + w / 2^30 % 14 * 8))        // far beyond, up to 2^127
      else if (k == 5) -toF32(iabs(lo) + (1 + w % 2^30) * 2^(96 + w / 2^30 % 14 * 8))
      else if (k <= 8 and n > 1) toF32(lo + (hi - lo) * (w % n) / (n - 1))
      else if (k == 9 and n > 1) toF32(lo + (hi - lo) * (2 * (w % (n - 1)) + 1) / (2 * (n - 1)))
      else gR(w * 32, lo, hi)
    val y = look(s, lo, hi, t)
    emit(mk("fetch", [lo, hi, t].concat(s), [y._1], [y._2]))
  }
  // one float short of the end of a range that is far longer than its last part: the position may round to the last sample
  action edge = {
    nondet r = 0.to(2^100 - 1).oneOf()
    nondet v = 0.to(VB).oneOf()
    val s = values(2 + r % 11, v)
    val lo = -[1000, 4096, 100000, 16777216, 300][r / 16 % 5] * ONE
    val hi = (r / 2^10 % 2^10 + 1) * 2^(60 + r / 2^20 % 36)
    val t = below(hi, 1 + r / 2^30 % 3)
    val y = look(s, lo, hi, t)
    emit(mk("fetch", [lo, hi, t].concat(s), [y._1], [y._2]))
  }
  // many samples, given by the formula
  action long1 = {
    nondet r = 0.to(2^140 - 1).oneOf()
    val n = 2 + (if (r % 4 == 0) r / 4 % 2000 else if (r % 4 == 1) 397 + r / 4 % 8 else r / 4 % 130)
    val p = signedPar(r / 2^20 % 2^60)
    val lo = gLo(r / 2^80 % 2^10)
    val hi = lo + (if (r / 2^90 % 2 == 0) (n - 1) * ONE else gSpan(r / 2^91 % 2^16))
    val w = r / 2^108
    val k = w % 8
    val x = w / 8
    val t = if (k == 0) hi else if (k == 1) toF32(lo + (hi - lo) * (x % n) / (n - 1)) else if (k == 2) toF32(lo + (hi - lo) * (2 * (x % (n - 1)) + 1) / (2 * (n - 1)))
      else if (k == 3) toF32(hi - (hi - lo) / (n - 1) / (2 + x % 8)) else gR(x * 64, lo, hi)
    val s = range(0, n).foldl([], (l, i) => l.append(sample(p, i)))
    val y = look(s, lo, hi, t)
    emit(mk("fetch_long", [lo, hi, t, n * ONE].concat(par(p)), [y._1], [y._2]))
  }
  action own = {
    nondet r = 0.to(2^130 - 1).oneOf()
    val p = signedPar(r % 2^59)
    val t = gLambda(r / 2^59)
    val y = look(spectrum(p), NMLO, NMHI, t)
    emit(mk("sp_fetch", par(p).concat([t]), [y._1], [y._2]))
  }
  action ends = {
    nondet r = 0.to(2^60 - 1).oneOf()
    val p = signedPar(r)
    emit(mk("fetch_inf", par(p), [sample(p, 399), sample(p, 0)], [0, 0]))
  }
  action step = any { look1, look1, look1, look1, own, own, ends, long1, edge }
  // construction: all 400 samples
  action resample = {
    nondet r = 0.to(2^60 - 1).oneOf()
    nondet v = 0.to(VB).oneOf()
    val s = values(1 + r % 12, v)
    val lo = gLo(r / 2^10 % 2^10)
    val hi = lo + gSpan(r / 2^20 % 2^16)
    val y = range(0, 400).foldl([], (l, i) => l.append(look(s, lo, hi, (380 + i) * ONE)))
    emit(mk("resample", [lo, hi].concat(s), y.foldl([], (l, p) => l.append(p._1)), y.foldl([], (l, p) => l.append(p._2))))
  }
  // from many samples, given by the formula
  action resample_long = {
    nondet r = 0.to(2^130 - 1).oneOf()
    val n = 13 + (if (r % 2 == 0) r / 2 % 3000 else 380 + r / 2 % 40)
    val p = signedPar(r / 2^20 % 2^60)
    val lo = gLo(r / 2^80 % 2^10)
    val hi = lo + gSpan(r / 2^90 % 2^16)
    val s = range(0, n).foldl([], (l, i) => l.append(sample(p, i)))
    val y = range(0, 400).foldl([], (l, i) => l.append(look(s, lo, hi, (380 + i) * ONE)))
    emit(mk("resample_long", [lo, hi, n * ONE].concat(par(p)), y.foldl([], (l, q) => l.append(q._1)), y.foldl([], (l, q) => l.append(q._2))))
  }
  // straight lines of every number of samples from n0, from every usual first wavelength over every usual span: worst
  // deviation of the 400 samples from the line / tolerance, how many
  action lines = {
    val n0 = if (ev.op == "resample_lines") ev.a[0] / ONE + 8 else 1
    emit(mk("resample_lines", [n0 * ONE, 8 * ONE], [0, 0], [ONE, -1]))
  }
  action copy = {
    nondet r = 0.to(2^60 - 1).oneOf()
    val s = spectrum(signedPar(r))
    emit(mk("resample_default", par(signedPar(r)), s, range(0, 400).foldl([], (l, i) => l.append(look(s, NMLO, NMHI, (380 + i) * ONE)._2))))
  }
  action stepBuild = any { resample, resample, resample_long, copy }
  val laws = ev.e.length() == ev.t.length()
}
