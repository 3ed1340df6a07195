// C22: the metric laws of the colour differences
module c22_delta {
  import deltas.* from "./deltas"
  export deltas.*
  // outputs per call: d(a,b), d(b,a), d(a,a), d(b,b)
  pure def sym(op: str, a: List[int], b: List[int], d: int, t: int): Ev = mk(op, a.concat(b), [d, d, 0, 0], [t, t, 0, 0])
  // a colour close to x, in some of its components
  pure def near3(x: List[int], r: int): List[int] = {
    val j = 2^(4 + r % 16)
    range(0, 3).foldl([], (l, i) => l.append(if (r / 2^(4 + i) % 2 == 0) x[i] else toF32(x[i] + x[i] * (r / 2^(8 + 8 * i) % 256 - 128) / 128 / j))) }
  action uvD = {
    nondet r = 0.to(drawBits(6)).oneOf()
    val x = drawS(r, 6, prev, w => gW(w))
    val a = [x[0], x[1], x[2]]
    val b = [x[3], x[4], x[5]]
    emit(sym("delta_uv", a, b, dUV(a, b), ulps(6, dUV(a, b))))
  }
  action e76 = {
    nondet q = 0.to(LABB).oneOf()
    nondet r = 0.to(LABB).oneOf()
    val a = gLab(q)
    val b = partner(a, r)
    emit(sym("delta_e76", a, b, dE76(a, b), ulps(7, dE76(a, b))))
  }
  action icc = {
    nondet r = 0.to(drawBits(6)).oneOf()
    val x = draw(r, 6, prev, w => 4 * gC(w))
    val a = [x[0], x[1], x[2]]
    val b = if (r % 7 == 0) [x[0], x[1], toF32(x[2] * 5 / 4)] else if (r % 7 == 1) near3(x, r / 7) else [x[3], x[4], x[5]]
    emit(sym("delta_ictcp", a, b, dICC(a, b), tICC(a, b)))
  }
  action e2000 = {
    nondet q = 0.to(LABB).oneOf()
    nondet r = 0.to(LABB).oneOf()
    val a = gLab(q)
    val b = partner(a, r)
    all { clear(a, b), val e = e00(a, b, ONE, ONE, ONE) emit(sym("delta_e00", a, b, e.de, if (a == b) 0 else e.tol)) }
  }
  // triangle inequality of the Euclidean differences: excess over the detour is rounding only
  action tri3 = {
    nondet q = 0.to(LABB).oneOf()
    nondet r = 0.to(LABB).oneOf()
    nondet s = 0.to(LABB).oneOf()
    val a = gLab(q)
    val b = partner(a, r)
    val c = partner(b, s)
    val t = ulps(16, dE76(a, b) + dE76(b, c))
    emit(mk("triangle", a.concat(b).concat(c), [0, 0], [t, t]))
  }
  action step = any { uvD, e76, icc, e2000, tri3 }
  val laws = and {
    ev.op != "triangle" or { val a = [ev.a[0], ev.a[1], ev.a[2]] val b = [ev.a[3], ev.a[4], ev.a[5]] val c = [ev.a[6], ev.a[7], ev.a[8]]
      and { dE76(a, c) <= dE76(a, b) + dE76(b, c) + 2^40, dUV(a, c) <= dUV(a, b) + dUV(b, c) + 2^40 } },
    ev.op != "delta_e00" or { val a = [ev.a[0], ev.a[1], ev.a[2]] val b = [ev.a[3], ev.a[4], ev.a[5]]
      iabs(core(a, b, ONE, ONE, ONE, 0).de - core(b, a, ONE, ONE, ONE, 0).de) < 2^50 }
  }
}
