// C09: chromaticity conversions and their round trips.
module c09_chromaticity {
  import chroma.* from "./chroma"
  export chroma.*

  pure def gXYZ(w) = {   // non-negative, 2^-20 .. 2^14, black and zero channels frequent
    val s = w % 16
    val m = w / 16 % 2^24
    val k = w / 2^28 % 2^15
    if (s == 0) 0 else if (s <= 3) g01(w / 16)
    else if (s <= 9) m * 2^72 else (2^23 + m % 2^23) * 2^(54 + k % 33)
  }
  // out of specification: the region between exact black and the code's threshold, and sums that cancel
  pure def okXYZ(v) = asum3(v) == 0 or (iabs(sum3(v)) >= ONE / 2^26 and iabs(sum3(v)) * 16 >= asum3(v)
       and (v[1] == 0 or iabs(v[1]) * 2^18 >= asum3(v)))
  pure def fixXYZ(v) = if (okXYZ(v)) v else [ONE / 4, ONE / 2, ONE / 8]
  pure def amp(v) = if (sum3(v) == 0) ONE else fdiv(asum3(v), iabs(sum3(v)))   // cancellation in the sum
  pure def u(n, s, c) = ulps(n, fmul(s, c))
  // sign patterns: mostly all positive
  pure def signs(v: List[int], k: int): List[int] = if (k >= 8) v else range(0, 3).foldl([], (l, i) => l.append(if (k / 2^i % 2 == 0) v[i] else -v[i]))
  // cancellation in the denominators of xy -> uv and back
  pure def c1(x, y) = { val d = iabs(uvDen(x, y)) if (d < ONE / 16) 2^(PB + 20) else fdiv(3 * ONE + 2 * iabs(x) + 12 * iabs(y), d) }
  pure def c2(a, b) = { val d = iabs(xyDen(a, b)) if (d < ONE / 16) 2^(PB + 20) else fdiv(4 * ONE + 2 * iabs(a) + 8 * iabs(b), d) }
  pure val BIG = 2^(PB + 8)

  action doToYxy = {
    nondet r = 0.to(drawBits(3)).oneOf()
    nondet neg = 0.to(23).oneOf()
    val v = fixXYZ(signs(lmap(draw(r, 3, prev, w => gXYZ(w)), x => iabs(x)), neg))
    val e = toYxy(v)
    val c = amp(v)
    emit(mk("to_yxy", v, e, [0, u(6, iabs(e[1]), c), u(6, iabs(e[2]), c)]))
  }
  action doToYuv = {
    nondet r = 0.to(drawBits(3)).oneOf()
    nondet neg = 0.to(23).oneOf()
    val v0 = fixXYZ(signs(lmap(draw(r, 3, prev, w => gXYZ(w)), x => iabs(x)), neg))
    val xy0 = toYxy(v0)
    val v = if (c1(xy0[1], xy0[2]) > BIG) [ONE, 2 * ONE, -ONE / 2] else v0
    val xy = toYxy(v)
    val e = toYuv(v)
    val c = fmul(c1(xy[1], xy[2]), amp(v)) + ONE
    emit(mk("to_yuv", v, e, [0, u(10, iabs(e[1]), c), u(10, iabs(e[2]), c)]))
  }
  pure def gY(w) = if (w % 4 == 0) gC(w / 4) else if (w % 4 == 1) iabs(gW(w / 4)) else gXYZ(w / 4)
  action doFromYxy = {
    nondet r = 0.to(drawBits(3)).oneOf()
    nondet neg = 0.to(23).oneOf()
    nondet tiny = 0.to(7).oneOf()
    val v0 = lmap(draw(r, 3, prev, w => gY(w)), x => iabs(x))
    val x = if (neg % 3 == 0) v0[1] else toF32(imin(v0[1], 2 * ONE))
    val y0 = if (v0[2] > 4 * ONE) (if (r % 2 == 0) 0 else ONE / 4) else v0[2]
    val y1 = if (tiny == 0) toF32(y0 / 2^20) else y0
    val y = if (y1 > 0 and y1 < ONE / 2^26) ONE / 2^20 else y1
    val v = signs([v0[0], x, y], neg)
    val e = fromYxy(v)
    val s = if (y == 0) 0 else fdiv(iabs(v[0]), y)
    emit(mk("from_yxy", v, e, [ulps(4, iabs(e[0])), 0, ulps(4, iabs(e[2])) + ulps(3, fmul(s, ONE + x + y))]))
  }
  action doFromYuv = {
    nondet r = 0.to(drawBits(3)).oneOf()
    nondet neg = 0.to(23).oneOf()
    val v0 = lmap(draw(r, 3, prev, w => gC(w)), x => iabs(x))
    // u in [0, 0.625] or wider, v in {0} or (0.01, 0.4] or wider
    val wide = if (neg % 4 == 0) 5 else 1
    val uu = toF32(imin(v0[1], ONE) * 5 * wide / 8)
    val vv = if (v0[2] >= ONE) 0 else toF32(imax(v0[2], ONE / 64) * 2 * wide / 5)
    val w = signs([v0[0], uu, vv], neg)
    val v = if (c2(w[1], w[2]) > BIG) [v0[0], ONE / 4, ONE / 4] else w
    val xy = yuvToYxy(v)
    val e = fromYuv(v)
    val s = if (v[2] == 0) 0 else fdiv(iabs(v[0]), iabs(xy[2]))
    val c = c2(v[1], v[2]) + ONE
    emit(mk("from_yuv", v, e, [u(10, iabs(e[0]), c), 0, u(10, fmul(s, ONE + iabs(xy[1]) + iabs(xy[2])), c)]))
  }
  action doYxyYuv = {
    nondet r = 0.to(drawBits(3)).oneOf()
    nondet neg = 0.to(23).oneOf()
    val v0 = lmap(draw(r, 3, prev, w => gC(w)), x => iabs(x))
    val w = signs([v0[0], if (neg % 4 == 0) v0[1] else imin(v0[1], ONE), if (neg % 4 == 0) v0[2] else imin(v0[2], ONE)], neg)
    val v = if (c1(w[1], w[2]) > BIG) [w[0], ONE / 3 / 2^73 * 2^73, ONE / 8] else w
    val e = yxyToYuv(v)
    val a = c1(v[1], v[2])
    val b = c2(e[1], e[2])
    val c = fmul(a + ONE, b + ONE)
    emit(mk("yxy_yuv", v, e.concat(v), [0, u(6, iabs(e[1]), a + ONE), u(6, iabs(e[2]), a + ONE), 0, u(8, iabs(v[1]), c), u(8, iabs(v[2]), c)]))
  }
  // full circles
  action doCircle = {
    nondet r = 0.to(drawBits(3)).oneOf()
    nondet neg = 0.to(23).oneOf()
    val v0 = fixXYZ(signs(lmap(draw(r, 3, prev, w => gXYZ(w)), x => iabs(x)), neg))
    val v1 = if (v0[1] == 0 or iabs(v0[1]) * 64 < asum3(v0)) [v0[0], sum3(v0), v0[2]] else v0
    val w0 = lmap(v1, x => toF32(x))
    val q0 = toYxy(w0)
    val far = asum3(w0) != 0 and (iabs(sum3(w0)) * 4 < asum3(w0) or c1(q0[1], q0[2]) > 64 * ONE)
    val w = if (far) [ONE / 2, 3 * ONE, -ONE / 4] else w0
    val q = toYxy(w)
    val s = asum3(w)
    val k = if (s == 0) 0 else fdiv(s, iabs(w[1]))                  // 1/y
    val x = toYuv(w)
    val c = if (imin3(w[0], w[1], w[2]) >= 0) ONE else fmul(fmul(c1(q[1], q[2]), c2(x[1], x[2])), amp(w))
    val t = [ulps(10, iabs(w[0])), 0, u(10, s, amp(w))]
    val tu = [u(40, fmul(s, ONE + k), c), 0, u(40, fmul(s, ONE + k), c)]
    emit(mk("xyz_circle", w, w.concat(w), t.concat(tu)))
  }
  action step = any { doToYxy, doToYuv, doFromYxy, doFromYuv, doYxyYuv, doCircle }

  pure def near(x, y, s) = iabs(x - y) <= 2^40 + iabs(s) / 2^50
  val laws = and {
    ev.op == "to_yxy" and ev.e[2] != 0 implies {
      val b = fromYxy(ev.e)
      sum3(ev.a) == 0 or (near(b[0], ev.a[0], asum3(ev.a) * 2^20) and near(b[2], ev.a[2], asum3(ev.a) * 2^20)) },
    ev.op == "yxy_yuv" implies { val b = yuvToYxy(ev.e.slice(0, 3)) near(b[1], ev.a[1], ONE * 2^12) and near(b[2], ev.a[2], ONE * 2^12) },
    ev.op == "to_yuv" and sum3(ev.a) != 0 implies
      // CIE 1960 directly from XYZ: u = 4X/(X+15Y+3Z), v = 6Y/(X+15Y+3Z)
      { val d = ev.a[0] + 15 * ev.a[1] + 3 * ev.a[2]
        near(ev.e[1], 4 * fdiv(ev.a[0], d), ONE * 2^12) and near(ev.e[2], 6 * fdiv(ev.a[1], d), ONE * 2^12) },
    ev.a.select(x => not(isF32(x))).length() == 0
  }
}
