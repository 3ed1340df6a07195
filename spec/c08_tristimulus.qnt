// C08: colour triples: arithmetic, clipping, sign tests.
module c08_tristimulus {
  import linalg.* from "./linalg"
  export linalg.*

  pure def zeros(e) = lmap(e, x => 0)
  pure def clampc(x, lo, hi) = if (x < lo) lo else if (x > hi) hi else x

  action doAdd = {
    nondet r = 0.to(drawBits(6)).oneOf()
    val a = drawV(r, 6, 3, prev, w => gW(w))
    val e = lmap2(a.slice(0, 3), a.slice(3, 6), (x, y) => x + y)
    emit(mk("tri_add", a, e, lmap(e, s => ulps(2, iabs(s)))))
  }
  action doMul = {
    nondet r = 0.to(drawBits(6)).oneOf()
    val a = drawV(r, 6, 3, prev, w => gW(w))
    val e = lmap2(a.slice(0, 3), a.slice(3, 6), (x, y) => fmul(x, y))
    emit(mk("tri_mul", a, e, lmap(e, s => ulps(2, iabs(s)))))
  }
  action doScale = {
    nondet r = 0.to(drawBits(4)).oneOf()
    val a = drawV(r, 4, 3, prev, w => gW(w))
    val e = lmap(a.slice(0, 3), x => fmul(x, a[3]))
    emit(mk("tri_scale", a, e, lmap(e, s => ulps(2, iabs(s)))))
  }
  action doDiv = {
    nondet r = 0.to(drawBits(4)).oneOf()
    val a0 = drawV(r, 4, 3, prev, w => gW(w))
    val a = if (a0[3] == 0) a0.replaceAt(3, -7 * ONE) else a0
    val e = lmap(a.slice(0, 3), x => fdiv(x, a[3]))
    emit(mk("tri_div", a, e, lmap(e, s => ulps(4, iabs(s)))))
  }
  action doDot = {
    nondet r = 0.to(drawBits(6)).oneOf()
    val a = drawV(r, 6, 3, prev, w => gW(w))
    emit(mk("tri_dot", a, [dotp(a.slice(0, 3), a.slice(3, 6))], [ulps(6, adotp(a.slice(0, 3), a.slice(3, 6)))]))
  }
  action doMinMax = {
    nondet r = 0.to(drawBits(6)).oneOf()
    val a = drawI(r, 6, prev, w => gW(w))
    val e = lmap2(a.slice(0, 3), a.slice(3, 6), (x, y) => imin(x, y)).concat(
            lmap2(a.slice(0, 3), a.slice(3, 6), (x, y) => imax(x, y)))
    emit(mk("tri_minmax", a, e, zeros(e)))
  }
  action doMinMax3 = {
    nondet r = 0.to(drawBits(3)).oneOf()
    nondet tie = 0.to(5).oneOf()
    val a0 = drawI(r, 3, prev, w => gW(w))
    val a = if (tie == 0) [a0[0], a0[0], a0[2]] else if (tie == 1) [a0[0], a0[1], a0[1]]
            else if (tie == 2) [a0[0], a0[1], a0[0]] else a0
    emit(mk("tri_minmax3", a, [imin3(a[0], a[1], a[2]), imax3(a[0], a[1], a[2])], [0, 0]))
  }
  // clip twice: the second application changes nothing
  action doClip = {
    nondet r = 0.to(drawBits(5)).oneOf()
    nondet sel = 0.to(5).oneOf()
    val a0 = drawI(r, 5, prev, w => gW(w))
    val lo = imin(a0[3], a0[4])
    val hi = imax(a0[3], a0[4])
    val a = if (sel == 0) [a0[0], a0[1], a0[2], 0, ONE]
            else if (sel == 1) [lo, hi, a0[2], lo, hi]          // at the bounds
            else if (sel == 2) [a0[0], a0[1], a0[2], lo, lo]    // degenerate range
            else [a0[0], a0[1], a0[2], lo, hi]
    val e = lmap(a.slice(0, 3), x => clampc(x, a[3], a[4]))
    emit(mk("tri_clip", a, e.concat(e), zeros(e.concat(e))))
  }
  action doSign = {
    nondet r = 0.to(drawBits(3)).oneOf()
    nondet sel = 0.to(7).oneOf()
    val a0 = drawI(r, 3, prev, w => gW(w))
    // one negative channel at a time is the interesting case
    val b = lmap(a0, x => iabs(x))
    val a = if (sel == 0) b
            else if (sel == 1) [-b[0], b[1], b[2]]
            else if (sel == 2) [b[0], -b[1], b[2]]
            else if (sel == 3) [b[0], b[1], -b[2]]
            else a0
    val e = lmap(a, x => imax(x, 0)).append(if (imin3(a[0], a[1], a[2]) < 0) ONE else 0)
    emit(mk("tri_sign", a, e, zeros(e)))
  }
  action doGet = {
    nondet r = 0.to(drawBits(3)).oneOf()
    val a = drawI(r, 3, prev, w => gW(w))
    val e = a.concat(a).concat(a).concat(a).concat([0, 0, 0, a[0], a[0], a[0], 3 * ONE])
    emit(mk("tri_get", a, e, zeros(e)))
  }
  action step = any { doAdd, doMul, doScale, doDiv, doDot, doMinMax, doMinMax3, doClip, doSign, doGet }

  val laws = and {
    ev.op == "tri_clip" implies
      range(0, 3).foldl(true, (b, i) => b and ev.a[3] <= ev.e[i] and ev.e[i] <= ev.a[4]
        and (ev.a[3] <= ev.a[i] and ev.a[i] <= ev.a[4] implies ev.e[i] == ev.a[i])),
    ev.op == "tri_minmax" implies
      range(0, 3).foldl(true, (b, i) => b and ev.e[i] + ev.e[3 + i] == ev.a[i] + ev.a[3 + i]),
    ev.op == "tri_sign" implies ((ev.e[3] == 0) iff (ev.e.slice(0, 3) == ev.a)),
    ev.a.select(x => not(isF32(x))).length() == 0
  }
}
