// C20: Bradford chromatic adaptation
module c20_bradford {
  import gamut.* from "./gamut"
  export gamut.*
  pure val L: G = NAMED[8]
  pure def adapt(s: List[int], d: List[int]): M9 = {
    val a = appE(L.fr, exact(s))
    val b = appE(L.fr, exact(d))
    val q = [fdiv(b.v[0], a.v[0]), fdiv(b.v[1], a.v[1]), fdiv(b.v[2], a.v[2])]
    val e = range(0, 3).foldl([], (l, i) => l.append(fdiv(b.d[i], iabs(a.v[i])) + fdiv(fmul(iabs(q[i]), a.d[i]), iabs(a.v[i])) + ulps(2, q[i])))
    val dg: M9 = { v: [q[0], 0, 0, 0, q[1], 0, 0, 0, q[2]], d: [e[0], 0, 0, 0, e[1], 0, 0, 0, e[2]] }
    mulE(mulE(L.to, dg), L.fr) }
  // whites: illuminants, Planckian-like and strongly coloured ones, any luminance
  pure def white(r: int): List[int] = {
    val k = r % 8
    val x = between(slot(r / 64, 0), 22, 50)
    val y = between(slot(r / 64, 1), 25, 45)
    val lum = [ONE, ONE, ONE, 100 * ONE, toF32(dec(18, 2)), ONE / 8, 3 * ONE, 1000 * ONE][r / 8 % 8]
    // chromaticities outside the triangle of the cones have negative responses
    val w = if (k < 3) ill(r / 64 % 12) else if (k == 7) wxyz(between(slot(r / 64, 0), 10, 75), between(slot(r / 64, 1), 8, 75)) else wxyz(x, y)
    lmap(lmap(w, t => fmul(t, lum)), t => toF32(t)) }
  pure def good(w: List[int]): bool = { val c = mapply(BRAD, w) Set(0, 1, 2).forall(i => iabs(c[i]) * 10 > w[1]) }
  pure def whiteOr(r: int): List[int] = { val w = white(r) if (good(w)) w else lmap(ill(6), t => toF32(t)) }
  pure val WB = 2^(SLOT * 2 + 6) - 1
  action matrix = {
    nondet q = 0.to(WB).oneOf()
    nondet r = 0.to(WB).oneOf()
    val s = whiteOr(q)
    val d = if (q % 61 == 0) s else whiteOr(r)
    val m = adapt(s, d)
    emit(mk("bradford", s.concat(d), m.v, m.d))
  }
  action alglaws = {
    nondet q = 0.to(WB).oneOf()
    nondet r = 0.to(WB).oneOf()
    nondet t = 0.to(WB).oneOf()
    val x = whiteOr(q)
    val y = whiteOr(r)
    val z = whiteOr(t)
    val xz = adapt(x, z)
    emit(mk("bradford_laws", x.concat(y).concat(z), y.concat(MID).concat(xz.v).concat(MID),
      appE(adapt(x, y), exact(x)).d.concat(adapt(x, x).d).concat(mulE(adapt(y, z), adapt(x, y)).d).concat(mulE(adapt(y, x), adapt(x, y)).d)))
  }
  // cone responses scale by the ratio of the whites' responses
  action conesOf = {
    nondet q = 0.to(WB).oneOf()
    nondet r = 0.to(WB).oneOf()
    nondet u = 0.to(drawBits(3)).oneOf()
    val x = whiteOr(q)
    val y = whiteOr(r)
    val c = draw(u, 3, [], w => gC(w))
    val lx = mapply(BRAD, x)
    val ly = mapply(BRAD, y)
    val lc = mapply(BRAD, c)
    emit(mk("bradford_cones", x.concat(y).concat(c), range(0, 3).foldl([], (l, i) => l.append(fdiv(fmul(lc[i], ly[i]), lx[i]))),
      appE(L.fr, appE(adapt(x, y), exact(c))).d))
  }
  action step = any { matrix, alglaws, conesOf }
  val laws = and {
    ev.op != "bradford" or {
      val m = range(0, 9).foldl([], (l, i) => l.append(ev.e[i]))
      val w = mapply(m, [ev.a[0], ev.a[1], ev.a[2]])
      Set(0, 1, 2).forall(i => iabs(w[i] - ev.a[3 + i]) < 2^60) } }
}
