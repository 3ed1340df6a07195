// C13: XYZ <-> ICtCp (1 = 100 cd/m2)
module c13_ictcp {
  import percept.* from "./percept"
  export percept.*
  // a cone response in [0, 100] with corners: 0, tiny, the end of the range
  pure def gCone(w) = {
    val s = w % 8
    val m = w / 8 % 2^24
    if (s == 0) { if (m % 2 == 0) 0 else 100 * ONE - ONE / 64 }
    else if (s <= 3) m * ONE / 2^24 * 100 / 2^(w / 2^32 % 2^8 % 30)
    else if (s <= 5) m * 2^72
    else m * 100 * 2^72 }
  pure def color(r) = {
    val g = gCone(slot(r, 3))
    val l = if (slot(r, 3) / 2^40 % 4 == 0) [g, g, g] else [gCone(slot(r, 0)), gCone(slot(r, 1)), gCone(slot(r, 2))]
    lmap(mapply(HPEI, l), t => toF32(t)) }
  action toI = {
    nondet r = 0.to(drawBits(4)).oneOf()
    val x = if (r / 2^180 % 2 == 0) color(r) else draw(r, 3, prev, w => 2 * gC(w))
    val y = icFwd(exact(x))
    emit(mk("to_ictcp", x, y.v, y.d))
  }
  // signals of colours within range: take an exact forward image, rounded to float32
  action fromI = {
    nondet r = 0.to(drawBits(4)).oneOf()
    val x = lmap(icFwd(exact(color(r))).v, t => toF32(t))
    val y = icInv(exact(x))
    emit(mk("from_ictcp", x, y.v, y.d))
  }
  action round = {
    nondet r = 0.to(drawBits(4)).oneOf()
    val x = color(r)
    emit(mk("ictcp_round", x, x, icRound(exact(x)).d))
  }
  action hcnuor = {
    nondet r = 0.to(drawBits(4)).oneOf()
    val x = lmap(icFwd(exact(color(r))).v, t => toF32(t))
    emit(mk("ictcp_dnuor", x, x, icDnuor(exact(x)).d))
  }
  // neutral light: D65 at any luminance up to 10000 cd/m2 has Ct = Cp = 0 up to the 4 decimals of the matrix
  action neutral = {
    nondet r = 0.to(2^60 - 1).oneOf()
    val k = r % 2^24 * ONE / 2^24 * 95 / 2^(r / 2^24 % 32)
    val x = lmap([dec(95047, 5), ONE, dec(108883, 5)], t => toF32(fmul(t, k)))
    val y = icFwd(exact(x))
    emit(mk("ictcp_neutral", x, [y.v[0], 0, 0], [y.d[0], y.d[1] + iabs(y.v[1]), y.d[2] + iabs(y.v[2])]))
  }
  action step = any { toI, fromI, round, hcnuor, neutral }
  val laws = and {
    ev.op != "ictcp_neutral" or { val y = icFwd(exact(ev.a)).v  iabs(y[1]) < dec(3, 4) and iabs(y[2]) < dec(3, 4) },
    ev.op != "ictcp_round" or Set(0, 1, 2).forall(i => ev.t[i] <= 3 * ONE)
  }
}
