// C31: photometric quantities of an observer
module c31_photometry {
  import spectral.* from "./spectral"
  export spectral.*
  pure val PX = 2^69 - 1
  // powers of either sign (absorbed flux), from 2^-40 to 2^40
  pure def gWatt(w) = if (w % 8 == 0) ONE else { val v = gW(w / 16)
    if (w / 4 % 4 == 0) v * 2^20 else if (w / 4 % 4 == 1) toF32(v / 2^(w / 2^20 % 28)) else if (w / 4 % 4 == 2) iabs(v) else v }
  // outputs: lumens, three candelas, three normalised responses
  pure def ev7(op: str, a: List[int], c: List[List[int]], t: int, w: int): Ev = {
    val y = [look(c[0], NMLO, NMHI, t), look(c[1], NMLO, NMHI, t), look(c[2], NMLO, NMHI, t)]
    val v = [y[0]._1, y[1]._1, y[2]._1]
    val d = [y[0]._2, y[1]._2, y[2]._2]
    val s = [vsum(c[0]), vsum(c[1]), vsum(c[2])]
    val aw = iabs(w)
    val cd = lmap(v, x => 683 * fmul(x, w))
    val cdt = lmap2(v, d, (x, e) => 683 * fmul(e, aw) + ulps(4, 683 * fmul(iabs(x), aw)))
    val nm = lmap2(v, s, (x, z) => fdiv(x, z))
    val nmt = range(0, 3).foldl([], (l, i) => l.append(fdiv(d[i], iabs(s[i])) + ulps(410, fmul(fdiv(iabs(v[i]), iabs(s[i])), fdiv(vabs(c[i]), iabs(s[i]))))))
    mk(op, a, [cd[1]].concat(cd).concat(nm), [cdt[1]].concat(cdt).concat(nmt)) }
  action named = {
    nondet r = 0.to(2^120 - 1).oneOf()
    val o = r % 3
    val t = gLambda(slot(r / 4, 0))
    val w = gWatt(slot(r / 4, 1))
    emit(ev7("photo_named", [o * ONE, t, w], [cmf(o, 0), cmf(o, 1), cmf(o, 2)], t, w))
  }
  action custom = {
    nondet q = 0.to(PX).oneOf()
    nondet s = 0.to(PX).oneOf()
    nondet u = 0.to(PX).oneOf()
    nondet r = 0.to(2^120 - 1).oneOf()
    val o = [respPar(q), respPar(s), respPar(u)]
    val t = gLambda(slot(r, 0))
    val w = gWatt(slot(r, 1))
    emit(ev7("photo", par(o[0]).concat(par(o[1])).concat(par(o[2])).concat([t, w]), [spectrum(o[0]), spectrum(o[1]), spectrum(o[2])], t, w))
  }
  // same observer and wavelength, other power: linear
  action power = all {
    ev.op == "photo_named",
    nondet w = 0.to(2^44 - 1).oneOf()
    val o = ev.a[0] / ONE
    emit(ev7("photo_named", [ev.a[0], ev.a[1], gWatt(w)], [cmf(o, 0), cmf(o, 1), cmf(o, 2)], ev.a[1], gWatt(w)))
  }
  action step = any { named, custom, power }
  val laws = ev.op == "init" or ev.e[0] == ev.e[2]
}
