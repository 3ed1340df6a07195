// CIE 1976 L*a*b*, with channel ratios above 1 treated as 1.
module lab {
  import linalg.* from "./linalg"
  export linalg.*
  pure val TH = rat(216, 24389)
  pure val D50: List[int] = [dec(9642, 4), ONE, dec(8249, 4)]
  pure def labF(t) = if (t > ONE) ONE else if (t > TH) fcbrt(t) else (t * 24389 / 27 + 16 * ONE) / 116
  pure def labG(f) = if (f > ONE) ONE else if (f > rat(6, 29)) fmul(f, fsq(f)) else (116 * f - 16 * ONE) * 27 / 24389
  // slope of labF / labG, for error propagation
  pure def dF(t) = if (t > TH) { val c = fcbrt(imin(t, ONE)) fdiv(ONE, 3 * fsq(c)) } else rat(24389, 27 * 116)
  pure def dG(f) = if (f > rat(6, 29)) 3 * fsq(imin(f, ONE)) else rat(116 * 27, 24389)
  pure def toLab(v, w) = {
    val x = labF(fdiv(v[0], w[0]))
    val y = labF(fdiv(v[1], w[1]))
    val z = labF(fdiv(v[2], w[2]))
    [116 * y - 16 * ONE, 500 * (x - y), 200 * (y - z)]
  }
  // rounding error of labF(v/w) in float32
  pure def eF(v, w) = if (v < 0) ulps(5, (fdiv(-v, w) * 24389 / 27 + 16 * ONE) / 116) else { val t = imin(fdiv(iabs(v), w), ONE) ulps(3, labF(t)) + ulps(2, fmul(dF(t), t)) }
  pure def tolLab(v, w) = {
    val x = eF(v[0], w[0])
    val y = eF(v[1], w[1])
    val z = eF(v[2], w[2])
    val s = range(0, 3).foldl(ONE, (m, i) => imax(m, iabs(labF(fdiv(v[i], w[i])))))
    [116 * y + ulps(3, 116 * s), 500 * (x + y) + ulps(2, 500 * s), 200 * (y + z) + ulps(2, 200 * s)]
  }
  pure def fromLab(l, w) = {
    val fy = (l[0] + 16 * ONE) / 116
    val fx = fy + l[1] / 500
    val fz = fy - l[2] / 200
    [fmul(labG(fx), w[0]), fmul(labG(fy), w[1]), fmul(labG(fz), w[2])]
  }
  // error of decoding when fx, fy, fz carry absolute errors d
  pure def eG(f, d) = fmul(dG(f) + 6 * iabs(d), d) + ulps(4, iabs(labG(f))) + ulps(3, rat(16 * 27, 24389))
}
