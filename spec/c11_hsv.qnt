// C11: hexagonal HSV, and the arctangent variant.
module c11_hsv {
  import linalg.* from "./linalg"
  export linalg.*

  pure def hue6(r, g, b) = {       // hue in degrees, [0, 360)
    val mx = imax3(r, g, b)
    val mn = imin3(r, g, b)
    val d = mx - mn
    if (d == 0) 0
    else if (mx == r) { val h = (g - b) * 60 * ONE / d if (h < 0) h + 360 * ONE else h }
    else if (mx == g) (b - r) * 60 * ONE / d + 120 * ONE
    else (r - g) * 60 * ONE / d + 240 * ONE
  }
  pure def sat(r, g, b) = { val mx = imax3(r, g, b) if (mx == 0) 0 else fdiv(mx - imin3(r, g, b), mx) }
  pure def modDeg(h) = { val m = h % (360 * ONE) if (m < 0) m + 360 * ONE else m }
  // the standard piecewise-linear hue circle: channel value at angle h
  pure def ramp(h, s, v, off) = {
    val k = modDeg(h + off)                                    // 0..360
    val x = if (k < 60 * ONE) k / 60 else if (k < 180 * ONE) ONE
            else if (k < 240 * ONE) (240 * ONE - k) / 60 else 0
    fmul(v, ONE - fmul(s, ONE - x))
  }
  pure def fromHsv(h, s, v) = [ramp(h, s, v, 120 * ONE), ramp(h, s, v, 0), ramp(h, s, v, 240 * ONE)]
  pure def okc(c) = if (c != 0 and c < ONE / 2^40) 0 else c

  pure def mkRgb(r, tie) = {
    val c = draw(r, 3, [], w => okc(gC(w)))
    if (tie == 0) [c[0], c[0], c[2]] else if (tie == 1) [c[0], c[1], c[1]] else if (tie == 2) [c[0], c[1], c[0]]
    else if (tie == 3) [c[0], c[0], c[0]]
    else if (tie == 4) [c[0], toF32(c[0] + (c[1] - ONE) / 2^12), c[0]]   // almost grey
    else c
  }
  // one or two channels may be negative (colours outside a gamut) as long as the largest is positive
  pure def outside(c: List[int], k: int): List[int] = {
    val v = imax3(c[0], c[1], c[2])
    val a = if (k >= 4) c else range(0, 3).foldl([], (l, i) => l.append(if (c[i] != v and (k == i or (k == 3 and c[i] * 2 < v))) -c[i] else c[i]))
    val w = imax3(a[0], a[1], a[2])
    if (iabs(imin3(a[0], a[1], a[2])) > 16 * w) c else a }
  // outputs: hue, saturation, value, hue-in-range flag
  action doTo = {
    nondet r = 0.to(drawBits(3)).oneOf()
    nondet tie = 0.to(11).oneOf()
    nondet neg = 0.to(11).oneOf()
    val c = outside(lmap(mkRgb(r, tie), x => iabs(x)), neg)
    val h = hue6(c[0], c[1], c[2])
    val s = sat(c[0], c[1], c[2])
    val v = imax3(c[0], c[1], c[2])
    emit(mk("to_hsv", c, [h, s, v, ONE], [ulps(6, 360 * ONE), ulps(4, s), 0, 0]))
  }
  action doAtan = {
    nondet r = 0.to(drawBits(3)).oneOf()
    nondet tie = 0.to(11).oneOf()
    nondet neg = 0.to(11).oneOf()
    val c = outside(lmap(mkRgb(r, tie), x => iabs(x)), neg)
    val y = fmul(fsqrt(3 * ONE), c[1] - c[2])
    val x = 2 * c[0] - c[1] - c[2]
    val rad = fsqrt(fsq(x) + fsq(y))
    val v = imax3(c[0], c[1], c[2])
    val h = { val q = fatan2(y, x) * 180 * ONE / PI if (q < 0) q + 360 * ONE else q }
    val grey = c[0] == c[1] and c[1] == c[2]
    val th = if (grey) 0 else ulps(8, 360 * ONE) + (if (rad == 0) 2^120 else fdiv(58 * ulps(8, v - imin(0, imin3(c[0], c[1], c[2]))), rad))
    val s = sat(c[0], c[1], c[2])
    emit(mk("to_hsv_atan", c, [h, s, v, ONE], [if (th > 90 * ONE) -1 else th, ulps(4, s), 0, 0]))
  }
  action doFrom = {
    nondet r = 0.to(drawBits(3)).oneOf()
    nondet sel = 0.to(9).oneOf()
    val q = draw(r, 3, [], w => gS(w))
    val h = if (sel == 0) (iabs(q[0]) * 12 / ONE - 3) * 60 * ONE           // sector corners, outside one turn too
            else if (sel == 1) toF32((iabs(q[0]) * 12 / ONE - 3) * 60 * ONE + (r / 7 % 64 - 32) * 2^76)
            else if (sel == 2) toF32(q[0] * 5000)
            else if (sel == 3) toF32(q[0] * 2^20)
            else if (sel == 4) toF32(-iabs(q[0]) * 360)
            else toF32(iabs(q[0]) * 360)
    val s = iabs(okc(iabs(q[1]))) * (if (r % 11 == 0) 4 else 1)
    val v = okc(iabs(q[2]) * (if (r % 5 == 0) 16 else 1))
    val d = 40 * ONE + iabs(h) / 15                                     // error of the sector position, in 2^-24
    val t = fmul(fmul(v, s), d) / 2^24 + ulps(6, v)
    emit(mk("from_hsv", [h, s, v], fromHsv(h, s, v), [t, t, t]))
  }
  action doHuge = {   // any hue at all: terminates, and stays inside the colour's own range
    nondet r = 0.to(drawBits(3)).oneOf()
    nondet k = 20.to(120).oneOf()
    val q = draw(r, 3, [], w => gS(w))
    val h = (if (r % 2 == 0) -1 else 1) * (2^23 + iabs(q[0]) / 2^73 % 2^23) * 2^(73 + k)
    val s = iabs(okc(iabs(q[1])))
    val v = okc(iabs(q[2]))
    val mid = (v + fmul(v, ONE - s)) / 2
    val half = fmul(v, s) / 2 + ulps(8, v)
    emit(mk("from_hsv", [h, s, v], [mid, mid, mid], [half, half, half]))
  }
  action doRound = {
    nondet r = 0.to(drawBits(3)).oneOf()
    nondet tie = 0.to(11).oneOf()
    nondet neg = 0.to(11).oneOf()
    val c = outside(lmap(mkRgb(r, tie), x => iabs(x)), neg)
    val v = imax3(c[0], c[1], c[2])
    val t = ulps(30, v - imin3(c[0], c[1], c[2])) + ulps(12, v)
    emit(mk("hsv_round", c, c, [t, t, t]))
  }
  action step = any { doTo, doTo, doAtan, doFrom, doFrom, doHuge, doRound }

  val laws = and {
    ev.op == "to_hsv" implies {
      val b = fromHsv(ev.e[0], ev.e[1], ev.e[2])
      range(0, 3).foldl(true, (s, i) => s and iabs(b[i] - ev.a[i]) <= 2^40) and 0 <= ev.e[0] and ev.e[0] <= 360 * ONE },
    ev.a.select(x => not(isF32(x))).length() == 0
  }
}
