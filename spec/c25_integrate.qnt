// C25: spectral arithmetic and integration
module c25_integrate {
  import spectral.* from "./spectral"
  export spectral.*
  pure val P5 = 2^26 - 1
  pure val PX = 2^69 - 1
  pure def same(a: List[int], t: int): List[int] = lmap(a, x => t)
  pure def flip3(p: List[int], k: int): List[int] = if (k < 2) p else p.replaceAt(4, p[4] + 64 * (k - 1))
  // every sample takes part exactly
  action elementwise = {
    nondet q = 0.to(P5).oneOf()
    nondet r = 0.to(P5).oneOf()
    nondet k = 0.to(2).oneOf()
    nondet c = 0.to(7).oneOf()
    val p = flip3(exactPar(q), q / 2^24)
    val u = flip3(exactPar(r), r / 2^24)
    val a = spectrum(p)
    val b = spectrum(u)
    if (k == 0) emit(mk("spec_add", par(p).concat(par(u)), lmap2(a, b, (x, y) => x + y), same(a, 0)))
    else if (k == 1) emit(mk("spec_mul", par(p).concat(par(u)), lmap2(a, b, (x, y) => fmul(x, y)), same(a, 0)))
    else if (c == 3) { val f = (if (r % 2 == 0) -100 - r / 2 % 40 else 60 + r / 2 % 50) emit(mk("spec_far", par(p).concat([f * ONE]), a, same(a, 0))) }
    else { val f = [0, ONE, 2 * ONE, ONE / 2, -ONE, 3 * ONE, 2^(PB + 60), 2^(PB - 60)][c] emit(mk("spec_scale", par(p).concat([f]), lmap(a, x => fmul(x, f)), same(a, 0))) }
  }
  action level = {
    nondet w = 0.to(2^44 - 1).oneOf()
    val e = gW(w)
    if (w % 8 == 0) emit(mk("spec_E_default", [], spectrum([0, 0, 1, 2, 0]), same(spectrum([0, 0, 1, 2, 0]), 0)))
    else emit(mk("spec_E", [e], lmap(spectrum([0, 0, 1, 2, 0]), x => e), same(spectrum([0, 0, 1, 2, 0]), 0)))
  }
  action sums = {
    nondet q = 0.to(P5).oneOf()
    nondet r = 0.to(P5).oneOf()
    nondet s = 0.to(P5).oneOf()
    val p = flip3(exactPar(q), q / 2^24)
    val u = flip3(exactPar(r), r / 2^24)
    val v = [0, 0, 1 + s % 3, 4, 0]
    val a = spectrum(p)
    val b = spectrum(u)
    val z = if (s % 2 == 0) v else flip3(exactPar(s), s / 2^24)
    val c = spectrum(z)
    emit(mk("spec_sums", par(p).concat(par(u)).concat(par(z)), [vsum(a), vdot(a, b), vdot3(a, b, c)], [ulps(1, vabs(a)), ulps(400, vadot(a, b)), ulps(800, vadot3(a, b, c))]))
  }
  // the same with one sample different from zero: no sample is lost, duplicated or misplaced
  action spike = {
    nondet i = 0.to(399).oneOf()
    nondet j = 0.to(399).oneOf()
    nondet k = 0.to(1).oneOf()
    val jj = if (k == 0) i else j
    emit(mk("spec_spike", [i * ONE, jj * ONE], [ONE, if (i == jj) ONE else 0, if (i == jj) ONE else 0, (i + 1) * ONE, (i + 1) * ONE], [0, 0, 0, 0, 0]))
  }
  pure def scaleTol(s: int, n: int): int = ulps(n, iabs(s))
  // of a quotient dot / sum: both suffer from cancellation
  pure def quoTol(d: int, y: int, c: List[int], n: int): int = { val s = iabs(vsum(c)) 2 + ulps(n, fdiv(d, s)) + ulps(410, fmul(iabs(y), fdiv(vabs(c), s))) }
  action integ = {
    nondet q = 0.to(PX).oneOf()
    nondet r = 0.to(PX).oneOf()
    nondet s = 0.to(PX).oneOf()
    nondet t = 0.to(PX).oneOf()
    nondet l = 0.to(PX).oneOf()
    val o = [respPar(q), respPar(r), respPar(s)]
    val p = signedPar(t)
    val u = if (l % 4 == 0) [0, 0, 1, 2, 0] else signedPar(l / 4)
    val sp = spectrum(p)
    val lt = spectrum(u)
    val cm = [spectrum(o[0]), spectrum(o[1]), spectrum(o[2])]
    val y = range(0, 3).foldl([], (z, j) => z.append(fdiv(vdot(sp, cm[j]), vsum(cm[j]))))
    val w = range(0, 3).foldl([], (z, j) => z.append(fdiv(vdot3(sp, lt, cm[j]), vsum(cm[j]))))
    emit(mk("integrate", par(o[0]).concat(par(o[1])).concat(par(o[2])).concat(par(p)).concat(par(u)),
      y.concat(w), range(0, 3).foldl([], (z, j) => z.append(quoTol(vadot(sp, cm[j]), y[j], cm[j], 420))).concat(
        range(0, 3).foldl([], (z, j) => z.append(quoTol(vadot3(sp, lt, cm[j]), w[j], cm[j], 840))))))
  }
  // built-in observers, including the chart under D65
  action named = {
    nondet o = 0.to(2).oneOf()
    nondet t = 0.to(PX).oneOf()
    val p = if (t % 5 == 0) [0, 0, 1 + t / 5 % 9, 10, 1] else anyPar(t / 5)
    val sp = spectrum(p)
    val d = table(9)
    val y = range(0, 3).foldl([], (z, j) => { val c = cmf(o, j) z.append(fdiv(vdot(sp, c), vsum(c))) })
    val w = range(0, 3).foldl([], (z, j) => { val c = cmf(o, j) z.append(fdiv(vdot3(sp, d, c), vsum(c))) })
    emit(mk("integrate_named", [o * ONE].concat(par(p)), y.concat(w), lmap(y, x => scaleTol(x, 820)).concat(lmap(w, x => scaleTol(x, 1240)))))
  }
  action step = any { elementwise, level, sums, spike, spike, integ, named }
  val laws = and {
    // the equal-energy spectrum integrates to its level
    ev.op != "integrate_named" or ev.a[1] + ev.a[2] > 0 or ev.a[4] != 10 * ONE or Set(0, 1, 2).forall(j => iabs(ev.e[j] - ev.a[3] / 2) < 2^40)
  }
}
