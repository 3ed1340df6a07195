// C19: conversion between gamuts
module c19_convert {
  import gamut.* from "./gamut"
  export gamut.*
  type P = { i: int, p: List[int], g: G }
  pure def nopar: List[int] = [0, 0, 0, 0, 0, 0, 0, 0]
  pure def pickG(r: int): P = {
    val k = r % 16
    if (k < 10) { i: k, p: nopar, g: NAMED[k] }
    else if (k < 13) { val p = primaries(r / 16) { i: 10, p: p, g: gamutOf(p, 0) } }
    else { val p = entries(r / 16) { i: 11, p: p, g: gamutFrom(entryMat(p)) } } }
  // user-defined from a matrix near a diagonal one: six off-diagonal entries and two of the diagonal, often 0 and 1
  pure def entries(r: int): List[int] = {
    val z = r / 2^(SLOT * 8) % 64
    range(0, 8).foldl([], (l, i) => { val w = slot(r, i)
      l.append(if (i >= 6) { if (w % 3 > 0) ONE else between(w / 4, 50, 200) }
               else if (z / 2^i % 2 == 0) 0 else if (w % 3 == 0) rat(w / 4 % 5 - 2, 8) else between(w / 4, -30, 30)) }) }
  pure def entryMat(p: List[int]): List[int] = [p[6], p[0], p[1], p[2], p[7], p[3], p[4], p[5], ONE]
  pure def conv(s: G, d: G): M9 = mulE(d.fr, s.to)
  pure val B16 = PBITS * 16 + 15
  action matrix = {
    nondet q = 0.to(B16).oneOf()
    nondet r = 0.to(B16).oneOf()
    val s = pickG(q)
    val d = pickG(r)
    val m = conv(s.g, d.g)
    emit(mk("convert", [s.i * ONE, d.i * ONE].concat(s.p).concat(d.p), m.v, m.d))
  }
  action alglaws = {
    nondet q = 0.to(B16).oneOf()
    nondet r = 0.to(B16).oneOf()
    nondet t = 0.to(B16).oneOf()
    val s = pickG(q)
    val m = pickG(r)
    val d = pickG(t)
    val x = conv(s.g, d.g)
    val back = mulE(conv(d.g, s.g), x)
    emit(mk("convert_laws", [s.i * ONE, m.i * ONE, d.i * ONE].concat(s.p).concat(m.p).concat(d.p),
      x.v.concat(x.v).concat(MID).concat(MID).concat(s.g.to.v).concat(d.g.fr.v),
      mulE(conv(m.g, d.g), conv(s.g, m.g)).d.concat(x.d).concat(conv(s.g, s.g).d).concat(back.d)
        .concat(conv(s.g, NAMED[9]).d).concat(conv(NAMED[9], d.g).d)))
  }
  action color = {
    nondet q = 0.to(B16).oneOf()
    nondet r = 0.to(B16).oneOf()
    nondet w = 0.to(drawBits(3)).oneOf()
    val s = pickG(q)
    val d = pickG(r)
    val x = draw(w, 3, [], u => gW(u))
    val y = appE(conv(s.g, d.g), exact(x))
    val z = appE(d.g.fr, appE(s.g.to, exact(x)))
    emit(mk("convert_color", [s.i * ONE, d.i * ONE].concat(x).concat(s.p).concat(d.p), y.v.concat(z.v), y.d.concat(z.d)))
  }
  action step = any { matrix, alglaws, color }
  val laws = ev.e.length() == ev.t.length()
}
