// C23: CIEDE2000
module c23_ciede2000 {
  import deltas.* from "./deltas"
  export deltas.*
  pure val KS = [ONE, ONE, ONE, 2 * ONE, ONE / 2, toF32(dec(15, 1)), 4 * ONE, toF32(dec(7, 1))]
  action one = {
    nondet q = 0.to(LABB).oneOf()
    nondet r = 0.to(LABB).oneOf()
    nondet k = 0.to(2^10 - 1).oneOf()
    val a = gLab(q)
    val b = partner(a, r)
    all { clear(a, b),
      if (k % 2 == 0) { val e = e00(a, b, ONE, ONE, ONE) emit(mk("e00", a.concat(b), [e.de], [e.tol])) }
      else { val e = e00(a, b, KS[k / 2 % 8], KS[k / 16 % 8], KS[k / 128 % 8])
             emit(mk("e00_k", a.concat(b).concat([KS[k / 2 % 8], KS[k / 16 % 8], KS[k / 128 % 8]]), [e.de], [e.tol])) } }
  }
  // the same pair with other factors, or swapped
  action again = all {
    prev.length() >= 6,
    nondet k = 0.to(2^10 - 1).oneOf()
    val a = [prev[0], prev[1], prev[2]]
    val b = [prev[3], prev[4], prev[5]]
    val x = if (k / 512 == 0) a else b
    val y = if (k / 512 == 0) b else a
    val e = e00(x, y, KS[k % 8], KS[k / 8 % 8], KS[k / 64 % 8])
    emit(mk("e00_k", x.concat(y).concat([KS[k % 8], KS[k / 8 % 8], KS[k / 64 % 8]]), [e.de], [e.tol]))
  }
  action step = any { one, one, again }

  // published check values (Sharma et al., table 1)
  pure def sharma(l1, a1, b1, l2, a2, b2, de) =
    iabs(core([dec(l1, 4), dec(a1, 4), dec(b1, 4)], [dec(l2, 4), dec(a2, 4), dec(b2, 4)], ONE, ONE, ONE, 0).de - dec(de, 4)) <= dec(6, 5)
  pure val TABLE = and {
    sharma(500000, 26772, -797751, 500000, 0, -827485, 20425),
    sharma(500000, -13802, -842814, 500000, 0, -827485, 10000),
    sharma(500000, 0, 0, 500000, -10000, 20000, 23669),
    sharma(500000, 24900, -10, 500000, -24900, 9, 71792),
    sharma(500000, 24900, -10, 500000, -24900, 11, 72195),
    sharma(500000, -10, 24900, 500000, 9, -24900, 48045),
    sharma(500000, -10, 24900, 500000, 11, -24900, 47461),
    sharma(500000, 25000, 0, 500000, 0, -25000, 43065),
    sharma(500000, 25000, 0, 730000, 250000, -180000, 271492),
    sharma(500000, 25000, 0, 610000, -50000, 290000, 228977),
    sharma(500000, 25000, 0, 560000, -270000, -30000, 319030),
    sharma(602574, -340099, 362677, 604626, -341751, 394387, 12644),
    sharma(630109, -310961, -58663, 628187, -297946, -40864, 12630),
    sharma(227233, 200904, -466940, 230331, 149730, -425619, 20373),
    sharma(20776, 795, -11350, 9033, -636, -5514, 9082) }
  val laws = TABLE
}
