// Spectra: 400 samples, 380 nm .. 779 nm.  Test spectra are given by a formula the
// replayer evaluates too: sample i of (A, B, C, M, S + 64 k + 256 u) is r 2^(8 u) / 2^S with r = (A i^2 + B i + C) mod M,
// less M / 2 if k = 1 (both signs), negated if k = 2.
module spectral {
  import linalg.* from "./linalg"
  import tables.* from "./tables"
  export linalg.*
  export tables.*

  pure def sample(p: List[int], i: int): int = {
    val v = (p[0] * i * i + p[1] * i + p[2]) % p[3]
    val k = p[4] / 64 % 4
    (if (k == 1) v - p[3] / 2 else if (k == 2) -v else v) * 2^(8 * (p[4] / 256)) * ONE / 2^(p[4] % 64) }
  pure def spectrum(p: List[int]): List[int] = range(0, 400).foldl([], (l, i) => l.append(sample(p, i)))
  pure def par(p: List[int]): List[int] = lmap(p, t => t * ONE)
  // small integers: float32 sums and products of them are exact
  pure def exactPar(w: int): List[int] = {
    val k = w % 8
    if (k == 0) [0, 0, 1 + w / 8 % 7, 16, 0]                                  // constant
    else if (k == 1) [0, 1, w / 8 % 400, 400, 3]                              // sawtooth
    else if (k == 2) [0, 0, 0, 1, 0]                                          // zero
    else if (k == 3) [0, 1, w / 8 % 400, 400, 0]
    else [w / 8 % 16, w / 2^7 % 16, w / 2^11 % 16, 2 + w / 2^15 % 14, w / 2^19 % 4] }
  pure def roughPar(w: int): List[int] = [w % 4096, w / 2^12 % 4096, w / 2^24 % 4096, 2 + w / 2^36 % 4094, 12]
  pure def anyPar(w: int): List[int] = if (w % 4 == 0) exactPar(w / 4) else roughPar(w / 4)
  // the same with negative samples, and brighter or darker
  pure def vary(p: List[int], w: int): List[int] =
    p.replaceAt(4, p[4] + (if (w % 4 == 0) 64 else if (w % 4 == 1) 128 else 0) + (if (w / 4 % 4 == 0) 256 * (w / 16 % 3) else if (w / 4 % 4 == 1) w / 16 % 32 else 0))
  pure def signedPar(w: int): List[int] = vary(anyPar(w / 2^9), w % 2^9)
  // usable as a response function: the sum is not (nearly) cancelled
  pure def respPar(w: int): List[int] = { val p = signedPar(w) val s = spectrum(p) if (iabs(vsum(s)) * 8 <= vabs(s)) [0, 0, 1, 2, 0] else p }
  pure def vabs(a: List[int]): int = a.foldl(0, (s, x) => s + iabs(x))
  pure def vadot(a: List[int], b: List[int]): int = range(0, 400).foldl(0, (s, i) => s + iabs(a[i] * b[i])) / ONE
  pure def vadot3(a: List[int], b: List[int], c: List[int]): int = range(0, 400).foldl(0, (s, i) => s + iabs(a[i] * b[i] * c[i])) / (ONE * ONE)

  pure def vsum(a: List[int]): int = a.foldl(0, (s, x) => s + x)
  pure def vdot(a: List[int], b: List[int]): int = range(0, 400).foldl(0, (s, i) => s + a[i] * b[i]) / ONE
  pure def vdot3(a: List[int], b: List[int], c: List[int]): int = range(0, 400).foldl(0, (s, i) => s + a[i] * b[i] * c[i]) / (ONE * ONE)

  // ---- lookup -------------------------------------------------------------------------
  pure def clampi(i, n) = if (i < 0) 0 else if (i >= n) n - 1 else i
  pure def step1(s: List[int], i: int): int = iabs(s[clampi(i + 1, s.length())] - s[clampi(i, s.length())])
  // (value, tolerance) of the piecewise linear function through s over [lo, hi] at t
  pure def look(s: List[int], lo: int, hi: int, t: int): (int, int) = {
    val c = s.length() - 1
    if (t <= lo or c == 0) (s[0], 0)
    else if (t >= hi) (s[c], 0)
    else {
      val pos = (t - lo) * c * ONE / (hi - lo)
      val k = pos / ONE
      val r = pos % ONE
      val re = ulps(8, imax(iabs(lo), iabs(hi)) * c * ONE / (hi - lo)) + ulps(6, pos + ONE)
      val sl = imax(step1(s, k), imax(step1(s, k - 1), step1(s, k + 1)))
      (s[k] + fmul(s[k + 1] - s[k], r), 2 * fmul(sl, re) + ulps(4, imax(iabs(s[k]), iabs(s[k + 1])))) } }
  pure val NMLO = 380 * ONE
  pure val NMHI = 779 * ONE
  pure def gLambda(w) = {
    val k = w % 16
    if (k == 0) NMLO else if (k == 1) NMHI
    else if (k == 2) NMLO - gR(w / 16 * 32, 0, 400 * ONE)
    else if (k == 3) toF32(NMHI + gR(w / 16 * 32, 0, 2000 * ONE))
    else if (k == 4) NMLO + (w / 16 % 2^14 + 1) * ONE / 2^14                  // inside the first interval
    else if (k == 5) 778 * ONE + (w / 16 % 2^14) * ONE / 2^14                 // inside the last interval
    else if (k <= 8) NMLO + (w / 16 % 400) * ONE                              // on a sample
    else if (k == 9) NMLO + (w / 16 % 800) * ONE / 2
    else gR(w / 16 * 32, NMLO, NMHI) }

  // ---- built-in tables ------------------------------------------------------------------
  pure def cmf(o: int, j: int): List[int] = table(3 * o + j)       // o: 0 CIE1931, 1 Judd-Vos, 2 CIE2012
}
