// C10: CIELAB in both directions, for any white.
module c10_cielab {
  import lab.* from "./lab"
  export lab.*

  pure def gWhite(w) = {   // 0.25 .. 2, or around 100
    val m = w / 32 % 2^24
    if (w % 8 == 0) ONE else if (w % 8 == 1) 100 * ONE else if (w % 8 == 2) toF32(dec(9642, 4))
    else if (w % 8 == 3) (2^23 + m % 2^23) * 2^(63 + w / 2^30 % 20)          // 2^-10 .. 2^10
    else ONE / 4 + m * 2^72 / 2^3 * 14 / 2^3 * 2^3
  }
  // a channel ratio: over both branches, at the joint, at and above 1
  pure def gRatio(w) = {
    val s = w % 16
    val v = g01(w / 16)
    if (s <= 2) v / 64 else if (s == 3) -v / 16 else if (s == 6 and w / 16 % 4 == 0) -4 * v else if (s == 4) 2 * v else if (s == 5) TH + (w / 16 % 64 - 32) * 2^70 else v
  }
  pure def mkWhite(r) = lmap(draw(r, 3, [], w => gWhite(w)), x => if (x == 0) ONE else toF32(x))
  pure def mkColour(r, w, below) = lmap(range(0, 3), i => {
    val q = gRatio(slot(r, i))
    val v = toF32(fmul(if (below) imin(q, ONE) else q, w[i]))
    if (iabs(v) < ONE / 2^40) 0 else v })

  action doTo = {
    nondet r = 0.to(drawBits(3)).oneOf()
    nondet rw = 0.to(drawBits(3)).oneOf()
    val w = mkWhite(rw)
    val v = mkColour(r, w, false)
    emit(mk("to_lab", v.concat(w), toLab(v, w), tolLab(v, w)))
  }
  action doToD50 = {
    nondet r = 0.to(drawBits(3)).oneOf()
    val v = mkColour(r, D50, false)
    emit(mk("to_lab_d50", v, toLab(v, D50), lmap(tolLab(v, D50), t => t * 2)))
  }
  action doWhite = {    // the white itself, scaled by k: an exact grey
    nondet rw = 0.to(drawBits(3)).oneOf()
    nondet k = 0.to(2).oneOf()
    val w = mkWhite(rw)
    val v = lmap(w, x => x / 2^(3 * k))
    emit(mk("to_lab", v.concat(w), [116 * ONE / 2^k - 16 * ONE, 0, 0], tolLab(v, w)))
  }
  action doFrom = {
    nondet r = 0.to(drawBits(3)).oneOf()
    nondet rw = 0.to(drawBits(3)).oneOf()
    nondet useD50 = 0.to(3).oneOf()
    val w = if (useD50 == 0) D50 else mkWhite(rw)
    val q = draw(r, 3, [], x => gS(x))
    val m = if (r % 12 == 0) 1000 else if (r % 3 == 0) 128 else 20
    val l = [toF32(if (r % 7 == 0) q[0] * 150 else iabs(q[0]) * 101), toF32(q[1] * m), toF32(q[2] * m)]
    val fy = (l[0] + 16 * ONE) / 116
    val fx = fy + l[1] / 500
    val fz = fy - l[2] / 200
    val dy = ulps(3, iabs(fy) + 16 * ONE / 116)
    val dx = dy + ulps(3, iabs(l[1] / 500) + iabs(fx))
    val dz = dy + ulps(3, iabs(l[2] / 200) + iabs(fz))
    val e = fromLab(l, w)
    val t = [fmul(eG(fx, dx), w[0]) + ulps(2, iabs(e[0])), fmul(eG(fy, dy), w[1]) + ulps(2, iabs(e[1])), fmul(eG(fz, dz), w[2]) + ulps(2, iabs(e[2]))]
    if (useD50 == 0) emit(mk("from_lab_d50", l, e, lmap(t, x => 2 * x)))
    else emit(mk("from_lab", l.concat(w), e, t))
  }
  action doRound = {    // XYZ -> Lab -> XYZ below the white
    nondet r = 0.to(drawBits(3)).oneOf()
    nondet rw = 0.to(drawBits(3)).oneOf()
    val w = mkWhite(rw)
    val v = mkColour(r, w, true)
    val tl = tolLab(v, w)
    val f = [labF(fdiv(v[0], w[0])), labF(fdiv(v[1], w[1])), labF(fdiv(v[2], w[2]))]
    val s = imax(ONE, imax3(iabs(f[0]), iabs(f[1]), iabs(f[2])))
    val dy = tl[0] / 116 + ulps(3, iabs(f[1]) + 16 * ONE / 116)
    val dx = dy + tl[1] / 500 + ulps(3, s)
    val dz = dy + tl[2] / 200 + ulps(3, s)
    emit(mk("lab_round", v.concat(w), v, [fmul(eG(f[0], dx), w[0]) + ulps(2, iabs(v[0])), fmul(eG(f[1], dy), w[1]) + ulps(2, iabs(v[1])),
        fmul(eG(f[2], dz), w[2]) + ulps(2, iabs(v[2]))]))
  }
  action step = any { doTo, doToD50, doWhite, doFrom, doRound }

  val laws = and {
    ev.op == "to_lab" implies {
      val v = ev.a.slice(0, 3)
      val w = ev.a.slice(3, 6)
      val b = fromLab(ev.e, w)
      // invertible below the white; never above it
      range(0, 3).foldl(true, (s, i) => s and b[i] <= w[i] + 2^50
         and (v[i] <= w[i] implies iabs(b[i] - v[i]) <= 2^56 + iabs(w[i]) / 2^30)) },
    ev.op == "to_lab" implies ev.e[0] <= 100 * ONE,
    ev.a.length() == 6 implies ev.a.select(x => not(isF32(x))).length() == 0
  }
}
