// C14/C15: single inputs the sweeps do not reach - clamps, joints and their
// neighbouring floats, end points, zero, tiny and out-of-range numbers.
module c14_points {
  import otf.* from "./otf"
  export otf.*

  pure val GS = [ONE, toF32(dec(18, 1)), 2 * ONE, toF32(dec(22, 1)), toF32(dec(24, 1)), toF32(dec(26, 1)), 3 * ONE, ONE / 2]
  // any exponent from 1/16 to 32, where the power stays in a modest range; for both directions of the trip
  pure def anyG(w) = toF32((ONE + w / 16 % 2^24 * (ONE / 2^24)) * 2^(w % 9) / 16)
  pure def gFor(id, w, x) = if (id < 14 or w % 2 == 0 or x <= 0) GS[w / 2 % 8] else { val g = anyG(w / 2) if (imax(fmul(alog(x), g), fdiv(alog(x), g)) < 20 * ONE) g else GS[w / 2 % 8] }
  pure val TOP = [ONE, ONE, ONE, ONE, 100 * ONE, ONE, 10 * ONE, dec(150, 2), 64 * ONE, dec(150, 2), 64 * ONE, dec(150, 2),
                  1000 * ONE, 2 * ONE, 16 * ONE, 16 * ONE]
  // the range in which the standards are normally used
  pure val USUAL = [ONE, ONE, ONE, ONE, 100 * ONE, ONE, 10 * ONE, dec(109, 2), 14 * ONE, dec(109, 2), 14 * ONE, dec(109, 2), 12 * ONE, ONE, 2 * ONE, 2 * ONE]
  // end points and joints
  pure def special(id, k) = if (k % 4 == 0) 0 else if (k % 4 == 1) TOP[id] else if (k % 4 == 2) KINK[id] else ONE
  pure def nudge(v, k) = if (v == 0) v else toF32(v) + (k % 9 - 4) * 2^(imax(bitlen(v), 25) - 24)
  pure def inside(id, r) = {
    val s = r % 8
    val k = r / 8 % 2^12
    val v = r / 2^20 % 2^48
    val top = if (k / 2^10 == 0) TOP[id] else USUAL[id]
    if (s <= 1) nudge(special(id, k), k / 4)
    else if (s == 2) toF32(top / 2^(k % 60))
    else if (s == 3) toF32((v % 1024) * top / 1023)
    else if (s == 4) toF32((top / 2^(k % 24)) / 2^24 * (v % 2^24))
    else toF32(v % 2^40 * top / 2^40)
  }
  // clamped functions: also outside their domain
  pure def outside(id, r) = {
    val k = r / 8 % 2^12
    val far = if (k % 2 == 0) toF32(ONE * (1 + r / 2^20 % 2^24) / 2^(k / 2 % 40)) else (1 + k) * ONE
    if (id == 4 or id == 6 or id <= 3) { if (k / 2 % 2 == 0) -far else TOP[id] + imax(far, 0) }
    else if (id == 5 or id == 9 or id == 12 or id == 13) -imin(far, 64 * ONE)
    else if (id == 8 or id == 10) -imin(far, if (k / 4 % 2 == 0) ONE / 4 else 8 * ONE)
    else if (id == 7 or id == 11) -imin(far, ONE)
    else inside(id, r)
  }
  pure def low(id) = if (id == 7) dec(30002, 6) else if (id == 5) V0 + V0 / 2^20 else if (id == 9) KINK[9] + ONE / 2^20
                     else if (id >= 14) ONE / 2^12 else 0
  pure def dom(id, x) = {
    val t = if (id == 7) F(6, 10 * ONE, ONE) else TOP[id]
    val y = if (x > t) toF32(t) else x
    if (y <= 0 and (id == 5 or id >= 14)) 0 else toF32(imax(y, low(id))) }

  action step = {
    nondet r = 0.to(2^120 - 1).oneOf()
    val id = r % 16
    val q = r / 2^10 % 2^70
    val out = r / 128 % 8 == 0
    val x = toF32(if (out) outside(id, q) else imax(0, inside(id, q)))
    val g = gFor(id, r / 2^82, x)
    emit(mk("point", [id * ONE, g, x], [F(id, x, g)], [TP(id, x, g)]))
  }
  action stepTrip = {
    nondet r = 0.to(2^120 - 1).oneOf()
    val id = r % 16
    val q = r / 2^10 % 2^70
    val below = r / 128 % 8 == 0 and (id == 10 or id == 11)
    val x = if (below) toF32(outside(id, q)) else dom(id, imax(0, inside(id, q)))
    val g = gFor(id, r / 2^82, x)
    emit(mk("trip", [id * ONE, g, x], [x], [RT(id, x, g) + RT(id, x, g) / 4]))
  }
  val laws = ev.a.length() == 0 or isF32(ev.a[2])
}
