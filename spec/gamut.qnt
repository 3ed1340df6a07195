// Gamuts over the reals: matrices with an elementwise bound on the error a
// float32 evaluation may have accumulated.
module gamut {
  import percept.* from "./percept"
  export percept.*

  type M9 = { v: List[int], d: List[int] }
  pure def mabs(m: List[int]): List[int] = lmap(m, t => iabs(t))
  pure def mEx(m: List[int]): M9 = { v: m, d: zero9 }
  pure def mRnd(m: List[int]): M9 = { v: m, d: lmap(m, t => if (t == 0 or iabs(t) == ONE) 0 else iabs(t) / 2^24 + 1) }
  pure def mulE(a: M9, b: M9): M9 = {
    val aa = mabs(a.v)
    val ab = mabs(b.v)
    val e1 = mmul(lmap2(aa, a.d, (x, y) => x + y), b.d)
    val e2 = mmul(a.d, ab)
    val e3 = mmul(aa, ab)
    { v: mmul(a.v, b.v), d: range(0, 9).foldl([], (l, i) => l.append(e1[i] + e2[i] + ulps(5, e3[i]))) } }
  pure def invE(a: M9): M9 = {
    val n = minv(a.v)
    val an = mabs(n)
    val e = mmul(an, mmul(a.d, an))
    val f = invErr(a.v)
    { v: n, d: range(0, 9).foldl([], (l, i) => l.append(e[i] + e[i] / 4 + f[i])) } }
  pure def appE(m: M9, x: I3): I3 = app(m.v, m.d, 5, x)
  pure def wxyz(x: int, y: int): List[int] = [fdiv(x, y), ONE, fdiv(ONE - x - y, y)]

  // a gamut: to and from XYZ
  type G = { to: M9, fr: M9 }
  // p = xR yR xG yG xB yB xW yW, each with relative input error k * 2^-24
  pure def gamutOf(p: List[int], k: int): G = {
    val z = [ONE - p[0] - p[1], ONE - p[2] - p[3], ONE - p[4] - p[5]]
    val pm: M9 = { v: [p[0], p[2], p[4], p[1], p[3], p[5], z[0], z[1], z[2]],
                   d: [iabs(p[0]), iabs(p[2]), iabs(p[4]), iabs(p[1]), iabs(p[3]), iabs(p[5])].foldl([], (l, t) => l.append(t * k / 2^24))
                      .concat([ulps(2 + k, ONE), ulps(2 + k, ONE), ulps(2 + k, ONE)]) }
    val w = wxyz(p[6], p[7])
    val we: I3 = { v: w, d: [ulps(3 + 2 * k, w[0]), 0, ulps(3 + 2 * k, fdiv(ONE + p[6], p[7]))] }
    val s = appE(invE(pm), we)
    val dg: M9 = { v: [s.v[0], 0, 0, 0, s.v[1], 0, 0, 0, s.v[2]], d: [s.d[0], 0, 0, 0, s.d[1], 0, 0, 0, s.d[2]] }
    val tx = mulE(pm, dg)
    { to: tx, fr: invE(tx) } }
  pure def gamutFrom(m: List[int]): G = { to: invE(mEx(m)), fr: mEx(m) }
  pure def gamutFromRnd(m: List[int]): G = { to: invE(mRnd(m)), fr: mRnd(m) }

  // usable primaries: the triangle is not degenerate and the white weights are moderate
  pure def usable(p: List[int]): bool = {
    val m = [p[0], p[2], p[4], p[1], p[3], p[5], ONE - p[0] - p[1], ONE - p[2] - p[3], ONE - p[4] - p[5]]
    val d = det3(m)
    if (iabs(d) < ONE / 14 or p[7] < ONE / 10) false
    else { val s = mapply(minv(m), wxyz(p[6], p[7]))
           Set(0, 1, 2).forall(i => iabs(s[i]) > ONE / 20 and iabs(s[i]) < 8 * ONE) } }

  // ---- built-in data -----------------------------------------------------------------
  pure val PRIMS: List[List[int]] = [
    [6400, 3300, 2100, 7100, 1500, 600, 31270, 32900],      // AdobeRGB (1998)
    [6400, 3300, 3000, 6000, 1500, 600, 31270, 32900],      // Rec.709
    [7080, 2920, 1700, 7970, 1310, 460, 31270, 32900],      // Rec.2020
    [6800, 3200, 2650, 6900, 1500, 600, 31400, 35100],      // DCI-P3
    [7300, 2800, 1400, 8550, 1000, -500, 31270, 32900],     // S-Gamut
    [7660, 2750, 2250, 8000, 890, -870, 31270, 32900],      // S-Gamut3.Cine
    [7130, 2930, 1650, 8300, 1280, 440, 32168, 33767],      // ACEScg (AP1)
    [7347, 2653, 0, 10000, 1, -770, 32168, 33767] ]         // ACES2065 (AP0)
  pure def prim(i: int): List[int] = {
    val p = PRIMS[i]
    [dec(p[0], 4), dec(p[1], 4), dec(p[2], 4), dec(p[3], 4), dec(p[4], 4), dec(p[5], 4), dec(p[6], 5), dec(p[7], 5)] }
  pure val BRAD: List[int] = [dec(8951, 4), dec(2664, 4), dec(-1614, 4), dec(-7502, 4), dec(17135, 4), dec(367, 4), dec(389, 4), dec(-685, 4), dec(10296, 4)]
  pure val NAMED: List[G] = [gamutOf(prim(0), 1), gamutOf(prim(1), 1), gamutOf(prim(2), 1), gamutOf(prim(3), 1), gamutOf(prim(4), 1),
    gamutOf(prim(5), 1), gamutOf(prim(6), 1), gamutOf(prim(7), 1), gamutFromRnd(BRAD), { to: mEx(MID), fr: mEx(MID) }]
  pure val ILL: List[List[int]] = [ [109850, 35585], [99072, 85223], [98074, 118232], [96422, 82521], [95682, 92149], [95265, 100883],
    [95047, 108883], [94972, 122638], [100000, 100000], [99186, 67393], [95041, 108747], [100962, 64350] ]
  pure def ill(i: int): List[int] = [dec(ILL[i][0], 5), ONE, dec(ILL[i][1], 5)]

  // ---- drawing -------------------------------------------------------------------------
  pure def between(w, lo, hi) = gR(w, dec(lo, 2), dec(hi, 2))
  pure def family(r: int): List[int] = {
    val c = [between(slot(r, 0), 50, 76), between(slot(r, 1), 20, 36), between(slot(r, 2), 0, 35), between(slot(r, 3), 55, 100),
             between(slot(r, 4), 5, 20), between(slot(r, 5), -10, 12), between(slot(r, 6), 27, 42), between(slot(r, 7), 28, 42)]
    val k = r / 2^(SLOT * 8) % 8
    if (k == 0) [c[2], c[3], c[0], c[1], c[4], c[5], c[6], c[7]]
    else if (k == 1) [c[4], c[5], c[2], c[3], c[0], c[1], c[6], c[7]]
    else if (k == 2) [c[2], c[3], c[4], c[5], c[0], c[1], c[6], c[7]]
    else c }
  pure def wild(r: int): List[int] = range(0, 8).foldl([], (l, i) => l.append(between(slot(r, i), if (i >= 6) 10 else -15, if (i >= 6) 60 else 110)))
  // a primary on the line y = 0 or x = 0, or in a corner of the diagram
  pure def onAxis(f: List[int], r: int): List[int] = {
    val j = 2 * (r % 3)
    val c = [[f[j], 0], [0, f[j + 1]], [ONE, 0], [0, ONE], [0, 0], [f[j], ONE - f[j]]][r / 3 % 6]
    range(0, 8).foldl([], (l, i) => l.append(toF32(if (i == j) c[0] else if (i == j + 1) c[1] else f[i]))) }
  pure def primaries(r: int): List[int] = {
    val f = family(r)
    val z = onAxis(f, r / 2^4 % 2^20)
    val w = wild(r)
    val k = r / 2^(SLOT * 8 + 4) % 8
    if (k < 3 and usable(w)) w
    else if (k == 4 and usable(z)) z
    else if (k == 3) lmap(prim(r / 2^(SLOT * 8) % 8), t => toF32(t))
    else if (usable(f)) f
    else lmap(prim(1), t => toF32(t)) }
  pure val PBITS = 2^(SLOT * 8 + 7) - 1
}
