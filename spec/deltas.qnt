// Colour differences over the reals.
module deltas {
  import percept.* from "./percept"
  export percept.*

  pure def hyp2(a, b) = fsqrt(fsq(a) + fsq(b))
  pure def hyp3(a, b, c) = fsqrt(fsq(a) + fsq(b) + fsq(c))
  pure def dUV(a: List[int], b: List[int]): int = hyp2(a[1] - b[1], a[2] - b[2])
  pure def dE76(a: List[int], b: List[int]): int = hyp3(a[0] - b[0], a[1] - b[1], a[2] - b[2])
  pure def dICC(a: List[int], b: List[int]): int = {
    val p = icFwd(exact(a)).v
    val q = icFwd(exact(b)).v
    fsqrt(fsq(p[0] - q[0]) + fsq(p[1] - q[1]) / 4 + fsq(p[2] - q[2])) }
  pure def tICC(a: List[int], b: List[int]): int = {
    val p = icFwd(exact(a)).d
    val q = icFwd(exact(b)).d
    fsqrt(fsq(p[0] + q[0]) + fsq(p[1] + q[1]) / 4 + fsq(p[2] + q[2])) + ulps(5, dICC(a, b)) }

  // ---- CIEDE2000 (Sharma, Wu, Dalal 2005) -------------------------------------------
  pure val DEG = fdiv(180 * ONE, PI)
  pure val P257 = 6103515625 * ONE                        // 25^7
  pure def pow7(x) = { val a = fsq(x) val b = fsq(a) fmul(fmul(a, b), x) }
  pure def c7(x) = { val p = pow7(x) fsqrt(fdiv(p, p + P257)) }
  pure def hue(b, a) = { val h = fmul(fatan2(b, a), DEG) if (h < 0) h + 360 * ONE else h }
  pure def cosd(x) = fcos(fdiv(x, DEG))
  pure def sind(x) = fsin(fdiv(x, DEG))
  type E00 = { de: int, tol: int, dh: int, hs: bool }
  // wrap: what a mean hue beyond 360 becomes (0: published; 1: left above 360; differs by < 1e-5)
  pure def core(x: List[int], y: List[int], kl: int, kc: int, kh: int, wrap: int): E00 = {
    val c1 = hyp2(x[1], x[2])
    val c2 = hyp2(y[1], y[2])
    val g = (ONE - c7((c1 + c2) / 2)) / 2
    val a1 = fmul(x[1], ONE + g)
    val a2 = fmul(y[1], ONE + g)
    val d1 = hyp2(a1, x[2])
    val d2 = hyp2(a2, y[2])
    val h1 = hue(x[2], a1)
    val h2 = hue(y[2], a2)
    val achro = c1 == 0 or c2 == 0
    val dh0 = h2 - h1
    val far = iabs(dh0) > 180 * ONE + ONE / 2^40
    val dh = if (achro) 0 else if (not(far)) dh0 else if (dh0 > 0) dh0 - 360 * ONE else dh0 + 360 * ONE
    val hb = if (achro) h1 + h2 else if (not(far)) (h1 + h2) / 2
             else if (h1 + h2 < 360 * ONE or wrap == 1) (h1 + h2 + 360 * ONE) / 2 else (h1 + h2 - 360 * ONE) / 2
    val dL = y[0] - x[0]
    val dC = d2 - d1
    val gm = fsqrt(fmul(d1, d2))
    val dH = 2 * fmul(gm, sind(dh / 2))
    val lb = (x[0] + y[0]) / 2 - 50 * ONE
    val cb = (d1 + d2) / 2
    val t = ONE - fmul(dec(17, 2), cosd(hb - 30 * ONE)) + fmul(dec(24, 2), cosd(2 * hb))
            + fmul(dec(32, 2), cosd(3 * hb + 6 * ONE)) - fmul(dec(20, 2), cosd(4 * hb - 63 * ONE))
    val sl = ONE + fdiv(fmul(dec(15, 3), fsq(lb)), fsqrt(20 * ONE + fsq(lb)))
    val sc = ONE + fmul(dec(45, 3), cb)
    val sh = ONE + fmul(dec(15, 3), fmul(cb, t))
    val q = fsq((hb - 275 * ONE) / 25)
    val th = if (q > 60 * ONE) 0 else 30 * fexp(-q)
    val rt = -2 * fmul(c7(cb), sind(2 * th))
    val l = fdiv(dL, fmul(kl, sl))
    val c = fdiv(dC, fmul(kc, sc))
    val h = fdiv(dH, fmul(kh, sh))
    val de = fsqrt(imax(0, fsq(l) + fsq(c) + fsq(h) + fmul(rt, fmul(c, h))))
    // float32: chroma differences carry 16 ulp of the chroma, hue differences 30 ulp of a radian
    val ec = fdiv(ulps(10, d1 + d2), fmul(kc, sc))
    val eh = fdiv(fmul(gm, ulps(30, ONE)) + ulps(10, iabs(dH)), fmul(kh, sh))
    val el = ulps(8, iabs(l))
    // sqrt of a quadratic form: 1-Lipschitz up to the factor sqrt(1 + |rt|/2) <= 1.4
    { de: de, tol: (ec + eh + el) * 3 / 2 + ulps(200, iabs(l) + iabs(c) + iabs(h)), dh: dh0, hs: achro } }
  pure def e00(x: List[int], y: List[int], kl: int, kc: int, kh: int): E00 = {
    val a = core(x, y, kl, kc, kh, 0)
    val b = core(x, y, kl, kc, kh, 1)
    { ...a, tol: a.tol + iabs(a.de - b.de) } }

  // ---- Lab colours -----------------------------------------------------------------
  pure def gLum(w) = if (w % 8 == 0) 50 * ONE else if (w % 8 == 1) 0 else if (w % 8 == 2) 100 * ONE else if (w % 64 == 11) toF32(w / 64 % 2^18 * 450 * 2^78 - 50 * ONE) else toF32(w / 8 % 2^24 * 100 * 2^72)
  pure def polar(w) = {
    val k = w % 8
    val m = w / 8 % 2^16
    val hd = if (k == 0) 275 * ONE + (m - 32768) * ONE / 1024 else if (k == 1) (m - 32768) * ONE / 4096 else if (k == 2) (m % 24) * 15 * ONE + ONE / 8 else m * 360 * ONE / 65536
    val ch = if (w / 2^24 % 8 == 0) ONE * (w / 2^27 % 256) / 256 else if (w / 2^24 % 16 == 1) (w / 2^27 % 2^12) * ONE / 4 else (w / 2^27 % 2^12) * ONE / 32
    [toF32(fmul(ch, cosd(hd))), toF32(fmul(ch, sind(hd)))] }
  pure def gLab(r: int): List[int] = {
    val k = r % 16
    val w = r / 16
    val l = gLum(slot(w, 0))
    val p = polar(slot(w, 1))
    if (k == 0) [l, 0, 0]
    else if (k == 1) [l, p[0], 0]
    else if (k == 2) [l, 0, p[1]]
    else if (k == 3) [l, (slot(w, 1) % 257 - 128) * ONE, (slot(w, 1) / 512 % 257 - 128) * ONE]
    else [l, p[0], p[1]] }
  // a partner: independent, mirrored, opposite, nearby or equal
  pure def partner(x: List[int], r: int): List[int] = {
    val k = r % 16
    val w = r / 16
    val d = toF32((w % 2^12 - 2048) * ONE / 2^(8 + (if (w / 2^15 % 4 == 0) w / 2^12 % 8 * 3 + w / 2^17 % 4 else w / 2^12 % 8)))
    if (k == 0) x
    else if (k == 1) [gLum(slot(w, 0)), x[1], -x[2]]
    else if (k == 2) [x[0], toF32(x[1] + d), x[2]]
    else if (k == 3) [x[0], x[1], toF32(x[2] + d)]
    else if (k == 4) [toF32(x[0] + d), x[1], x[2]]
    else if (k == 5) [x[0], toF32(x[1] + d), toF32(x[2] - d / 3)]
    else if (k == 6) [gLum(slot(w, 0)), -x[1], if (x[1] == 0) -x[2] else if (x[2] == 0) 0 else x[2]]
    else if (k == 7) [gLum(slot(w, 0)), x[1] / 2, x[2] / 2]
    else gLab(r / 16) }
  pure val LABB = 2^100 - 1
  // both branches of the hue difference meet at 180 degrees: only exact opposites on an axis are decided there
  pure def clear(x: List[int], y: List[int]): bool = {
    val e = core(x, y, ONE, ONE, ONE, 0)
    e.hs or iabs(iabs(e.dh) - 180 * ONE) > ONE / 64 or (x[2] == 0 and y[2] == 0) }
}
