// C12: XYZ <-> OKLab
module c12_oklab {
  import percept.* from "./percept"
  export percept.*
  pure def gX(w) = if (w % 8 == 0) -g01(w / 8) / 2 else if (w % 8 == 1) (if (w / 8 % 2 == 0) 4 else 8192) * g01(w / 16) else g01(w / 8)
  pure def gL(w) = if (w % 8 == 0) gS(w / 8) else if (w % 8 == 1) 20 * g01(w / 8) else g01(w / 8)
  action toLab = {
    nondet r = 0.to(drawBits(3)).oneOf()
    val x = draw(r, 3, prev, w => gX(w))
    val y = okFwd(exact(x))
    emit(mk("to_oklab", x, y.v, y.d))
  }
  action fromLab = {
    nondet r = 0.to(drawBits(3)).oneOf()
    val x = [gL(slot(r, 0)), gS(slot(r, 1)) / 2, gS(slot(r, 2)) / 2]
    val y = okInv(exact(x))
    emit(mk("from_oklab", x, y.v, y.d))
  }
  action round = {
    nondet r = 0.to(drawBits(3)).oneOf()
    val x = draw(r, 3, prev, w => gX(w))
    emit(mk("oklab_round", x, x, okInv(okFwd(exact(x))).d))
  }
  action hcnuor = {
    nondet r = 0.to(drawBits(3)).oneOf()
    val x = [gL(slot(r, 0)), gS(slot(r, 1)) / 2, gS(slot(r, 2)) / 2]
    emit(mk("oklab_dnuor", x, x, okFwd(okInv(exact(x))).d))
  }
  // scaling XYZ by k^3 scales OKLab by k
  action scaled = all {
    prev.length() == 3,
    nondet k = Set(-2, -1, 1, 2, 4).oneOf()
    val x = lmap(prev, t => if (k > 0) t * 8^k else t / 8^(-k))
    all { lmap(x, t => toF32(t)) == x, mmax(x) < 10000 * ONE,
      val y = okFwd(exact(x))
      emit(mk("to_oklab", x, y.v, y.d)) }
  }
  // D65, greys under it, and the LMS axes
  action white = {
    nondet r = 0.to(2^30 - 1).oneOf()
    val k = (1 + r / 8 % 255) * ONE / 255
    val x = lmap(if (r % 2 == 0) [dec(95047, 5), ONE, dec(108883, 5)]
                 else mapply(OK1I, [r / 2 % 2 * ONE, r / 4 % 2 * ONE, ONE]), t => toF32(fmul(t, k)))
    val y = okFwd(exact(x))
    emit(mk("to_oklab", x, y.v, y.d))
  }
  action step = any { toLab, fromLab, round, hcnuor, scaled, white }

  pure val D65OK = okFwd(exact([dec(95047, 5), ONE, dec(108883, 5)]))
  // the definition itself maps D65 to (1,0,0) and is homogeneous and invertible
  val laws = and {
    iabs(D65OK.v[0] - ONE) < dec(2, 4), iabs(D65OK.v[1]) < dec(2, 4), iabs(D65OK.v[2]) < dec(2, 4),
    ev.op != "to_oklab" or {
      val b = okInv(exact(okFwd(exact(ev.a)).v)).v
      Set(0, 1, 2).forall(i => iabs(b[i] - ev.a[i]) < 2^44) }
  }
}
