// CIE chromaticity: XYZ <-> Yxy <-> Yuv (1960), exact rationals.
module chroma {
  import linalg.* from "./linalg"
  export linalg.*
  pure def sum3(v) = v[0] + v[1] + v[2]
  pure def asum3(v) = iabs(v[0]) + iabs(v[1]) + iabs(v[2])
  pure val X65 = dec(3127, 4)
  pure val Y65 = dec(3290, 4)
  pure def toYxy(v) = { val s = sum3(v)
    if (s == 0) [v[1], X65, Y65] else [v[1], fdiv(v[0], s), fdiv(v[1], s)] }
  pure def fromYxy(v) =
    if (v[2] == 0) [0, v[0], 0]
    else [v[1] * v[0] / v[2], v[0], (ONE - v[1] - v[2]) * v[0] / v[2]]
  pure def uvDen(x, y) = 3 * ONE - 2 * x + 12 * y
  pure def xyDen(u, v) = 4 * ONE + 2 * u - 8 * v
  pure def yxyToYuv(v) = { val d = uvDen(v[1], v[2]) [v[0], 4 * fdiv(v[1], d), 6 * fdiv(v[2], d)] }
  pure def yuvToYxy(v) = { val d = xyDen(v[1], v[2]) [v[0], 3 * fdiv(v[1], d), 2 * fdiv(v[2], d)] }
  pure def toYuv(v) = yxyToYuv(toYxy(v))
  pure def fromYuv(v) = fromYxy(yuvToYxy(v))
}
