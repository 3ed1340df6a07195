// C21: whites from colour temperature.
module c21_cct {
  import linalg.* from "./linalg"
  export linalg.*

  // in t = T / 1000, so that no coefficient loses digits
  pure def bx(tk) = { val t = tk / 1000
    dec(811973208, 9) + fmul(t, dec(-16747, 5) + fmul(t, dec(331067, 8) + fmul(t, dec(690001, 8)
      + fmul(t, dec(-139671, 8) + fmul(t, dec(111951, 9) - fmul(t, dec(331672, 11))))))) }
  pure def by(tk) = { val t = tk / 1000
    dec(136977825, 9) + fmul(t, dec(317653, 6) + fmul(t, dec(-127946, 6) + fmul(t, dec(222415, 7)
      + fmul(t, dec(-181438, 8) + fmul(t, dec(567564, 10)))))) }
  pure def uOf(x, y) = fdiv(4 * x, -2 * x + 12 * y + 3 * ONE)
  pure def vOf(x, y) = fdiv(6 * y, -2 * x + 12 * y + 3 * ONE)

  // XYZ of chromaticity (x, y) with errors dx, dy, luminance l
  pure def white(x, y, l) = [fmul(fdiv(x, y), l), l, fmul(fdiv(ONE - x - y, y), l)]
  pure def whiteTol(x, y, dx, dy, l) = {
    val al = iabs(l)
    val ay = iabs(y) - dy
    val z = ONE - x - y
    [fmul(fdiv(dx, ay) + fdiv(fmul(fdiv(iabs(x), ay), dy), ay) + ulps(5, fdiv(iabs(x), ay)), al), 0,
     fmul(fdiv(dx + dy + ulps(3, ONE + iabs(x) + iabs(y)), ay) + fdiv(fmul(fdiv(iabs(z), ay), dy), ay) + ulps(5, fdiv(iabs(z), ay)), al)] }

  // ---- the cubic approximation of the Planckian locus --------------------------------
  pure def inv(t) = fdiv(ONE, t)
  pure def px(hot: bool, t: int): int = {
    val i = inv(t)
    val i2 = ONE * ONE / t * ONE / t
    if (hot) -30258469 * 100 * (i2 * ONE / t) + 21070379 * i2 / 10 + 2226347 * i / 10000 + dec(240390, 6)
    else -2661239 * 100 * (i2 * ONE / t) - 2343580 * i2 / 10 + 8776956 * i / 10000 + dec(179910, 6) }
  pure def pxAbs(hot: bool, t: int): int = {
    val i = inv(t)
    val i2 = ONE * ONE / t * ONE / t
    if (hot) 30258469 * 100 * (i2 * ONE / t) + 21070379 * i2 / 10 + 2226347 * i / 10000 + dec(240390, 6)
    else 2661239 * 100 * (i2 * ONE / t) + 2343580 * i2 / 10 + 8776956 * i / 10000 + dec(179910, 6) }
  pure def cub(c: List[int], x: int): int = fmul(fmul(fmul(c[0], x) + c[1], x) + c[2], x) + c[3]
  pure def PC(s: int): List[int] =
    if (s == 0) [dec(-11063814, 7), dec(-134811020, 8), dec(218555832, 8), dec(-20219683, 8)]
    else if (s == 1) [dec(-9549476, 7), dec(-137418593, 8), dec(209137015, 8), dec(-16748867, 8)]
    else [dec(30817580, 7), dec(-587338670, 8), dec(375112997, 8), dec(-37001483, 8)]
  pure def acub(c: List[int], x: int): int = cub(lmap(c, t => iabs(t)), iabs(x))
  pure def segOf(t: int): int = if (t < 2222 * ONE) 0 else if (t < 4000 * ONE) 1 else 2
  pure def planck(s: int, t: int): (int, int, int, int) = {
    val x = px(s == 2, t)
    val dx = ulps(6, pxAbs(s == 2, t))
    val c = PC(s)
    val dy = fmul(3 * fmul(iabs(c[0]), fsq(x)) + 2 * fmul(iabs(c[1]), x) + iabs(c[2]), dx) + ulps(7, acub(c, x))
    (x, cub(c, x), dx, dy) }
  pure def planckEv(op: str, a: List[int], t: int, l: int): Ev = {
    val s = segOf(t)
    val p = planck(s, t)
    // published segments are closed: at a joint either cubic is right
    val o = if (t == 2222 * ONE) planck(0, t) else if (t == 4000 * ONE) planck(1, t) else p
    mk(op, a, white(p._1, p._2, l), whiteTol(p._1, p._2, p._3 + iabs(p._1 - o._1), p._4 + iabs(p._2 - o._2), l)) }

  // ---- temperature polynomials and the Duv offset ---------------------------------------
  pure def dxy(v) = ulps(2, iabs(v)) + ONE / 2^34
  pure def ctEv(op: str, a: List[int], t: int, l: int): Ev = {
    val x = bx(t)
    val y = by(t)
    mk(op, a, white(x, y, l), whiteTol(x, y, dxy(x), dxy(y), l)) }
  pure def cctEv(op: str, a: List[int], t: int, duv: int, l: int): Ev = {
    val u = uOf(bx(t), by(t))
    val v = vOf(bx(t), by(t))
    // direction of the locus towards lower temperatures
    val h = ONE / 16
    val du = (uOf(bx(t - h), by(t - h)) - uOf(bx(t + h), by(t + h))) * 8
    val dv = (vOf(bx(t - h), by(t - h)) - vOf(bx(t + h), by(t + h))) * 8
    val len = fsqrt(fsq(du) + fsq(dv))
    // the code steps by 1 K in float32; curvature over that step, rounding of the step
    val step1 = ulps(10, ONE)
    val ang = imin(2 * ONE, fdiv(step1, len) + ONE / 500)
    val u1 = u - fdiv(fmul(duv, dv), len)
    val v1 = v + fdiv(fmul(duv, du), len)
    val p = fmul(iabs(duv), ang) + ulps(4, ONE)
    val d = 2 * u1 - 8 * v1 + 4 * ONE
    val x = fdiv(3 * u1, d)
    val y = fdiv(2 * v1, d)
    val dx = fdiv(3 * p + 10 * fmul(iabs(x), p), d) + ulps(6, iabs(x) + ONE)
    val dy = fdiv(2 * p + 10 * fmul(iabs(y), p), d) + ulps(6, iabs(y) + ONE)
    // outputs: XYZ, then distance from the plain white in uv, then the side
    val e = whiteTol(x, y, dx, dy, l)
    mk(op, a, white(x, y, l).concat([iabs(duv), sgn(duv) * ONE]),
       e.concat([ulps(24, ONE), if (iabs(duv) < dec(1, 3) or ang > ONE) -1 else 0])) }

  pure def gT(w, lo, hi) = {
    val k = w % 8
    if (k == 0) [1667, 2222, 2500, 3000, 3999, 4000, 4001, 5000, 5500, 6500, 6504, 7500, 9300, 10000, 2221, 2223][w / 8 % 16] * ONE
    else if (k == 1) toF32((lo + w / 8 % (hi - lo)) * ONE)
    else if (k == 2) { val j = (if (w / 8 % 2 == 0) 2222 else 4000) * ONE  j + (w / 16 % 33 - 16) * ONE / 2^12 }
    else gR(w / 8 * 32, lo * ONE, hi * ONE) }
  pure def gY(w) = if (w % 4 == 0) ONE else if (w % 4 == 1) toF32((1 + w / 4 % 10000) * ONE / 100) else g01(w / 4)
  pure def gD(w) = if (w % 8 == 0) 0 else { val d = toF32((1 + w / 16 % 600) * ONE / 10000) if (w / 8 % 2 == 0) d else -d }

  action ct = {
    nondet r = 0.to(2^100 - 1).oneOf()
    val t = gT(slot(r, 0), 1000, 13000)
    val l = gY(slot(r, 1))
    if (r / 2^90 % 4 == 0) emit(ctEv("from_ct_default", [t], t, ONE)) else emit(ctEv("from_ct", [t, l], t, l))
  }
  action pl = {
    nondet r = 0.to(2^100 - 1).oneOf()
    // also beyond the published range of the cubics
    val t = if (r / 2^92 % 8 == 0) gR(slot(r, 0) / 8 * 32, 900 * ONE, 1700 * ONE) else if (r / 2^92 % 8 == 1) gR(slot(r, 0) / 8 * 32, 20000 * ONE, 200000 * ONE) else gT(slot(r, 0), 1667, 25000)
    val l = gY(slot(r, 1))
    if (r / 2^90 % 4 == 0) emit(planckEv("from_planck_default", [t], t, ONE)) else emit(planckEv("from_planck", [t, l], t, l))
  }
  action cct = {
    nondet r = 0.to(2^140 - 1).oneOf()
    val t = gT(slot(r, 0), 1000, 11500)
    val l = imax(gY(slot(r, 1)), ONE / 64)
    val d = gD(slot(r, 2))
    if (r / 2^134 % 4 == 0) emit(cctEv("from_cct_default", [t, d], t, d, ONE)) else emit(cctEv("from_cct", [t, d, l], t, d, l))
  }
  // same temperature again with another offset (sign flipped, zero)
  action again = all {
    ev.op == "from_cct",
    nondet k = 0.to(2).oneOf()
    val t = ev.a[0]
    val d = if (k == 0) -ev.a[1] else if (k == 1) 0 else toF32(ev.a[1] / 2)
    emit(cctEv("from_cct", [t, d, ev.a[2]], t, d, ev.a[2]))
  }
  action step = any { ct, pl, cct, again }
  val laws = and {
    Set("from_ct", "from_planck", "from_cct").contains(ev.op) implies ev.t[1] == 0,
    ev.op != "from_cct" or iabs(ev.a[1]) > 0 or { val b = ctEv("", [], ev.a[0], ev.a[2]).e
       Set(0, 1, 2).forall(i => iabs(b[i] - ev.e[i]) < 2^50) }
  }
}
