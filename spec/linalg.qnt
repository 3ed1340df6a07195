// 3x3 matrices and 3-vectors over the reals, and the calls of Matrix3/Vector3.
// A matrix is the row-major list of its nine entries, as in Matrix3::m_.
module linalg {
  import fixp.* from "./fixp"
  import gen.* from "./gen"
  export fixp.*
  export gen.*

  pure def mrow(m, i) = [m[3 * i], m[3 * i + 1], m[3 * i + 2]]
  pure def mcol(m, j) = [m[j], m[3 + j], m[6 + j]]
  pure def dotp(a, b) = (a[0] * b[0] + a[1] * b[1] + a[2] * b[2]) / ONE
  pure def adotp(a, b) = (iabs(a[0] * b[0]) + iabs(a[1] * b[1]) + iabs(a[2] * b[2])) / ONE
  pure def mapply(m, v) = [dotp(mrow(m, 0), v), dotp(mrow(m, 1), v), dotp(mrow(m, 2), v)]
  pure def maapply(m, v) = [adotp(mrow(m, 0), v), adotp(mrow(m, 1), v), adotp(mrow(m, 2), v)]
  pure def mtrans(m) = [m[0], m[3], m[6], m[1], m[4], m[7], m[2], m[5], m[8]]
  pure def mmul(a, b) = {
    val x = mapply(a, mcol(b, 0))
    val y = mapply(a, mcol(b, 1))
    val z = mapply(a, mcol(b, 2))
    [x[0], y[0], z[0], x[1], y[1], z[1], x[2], y[2], z[2]]
  }
  pure def mamul(a, b) = {   // same with absolute values: rounding error scale
    val x = maapply(a, mcol(b, 0))
    val y = maapply(a, mcol(b, 1))
    val z = maapply(a, mcol(b, 2))
    [x[0], y[0], z[0], x[1], y[1], z[1], x[2], y[2], z[2]]
  }
  pure def lmap(l: List[int], f: (int) => int): List[int] = l.foldl([], (s, x) => s.append(f(x)))
  pure def lmap2(a: List[int], b: List[int], f: (int, int) => int): List[int] =
    range(0, a.length()).foldl([], (s, i) => s.append(f(a[i], b[i])))
  pure def madd(a, b) = lmap2(a, b, (x, y) => x + y)
  pure def mscale(a, s) = lmap(a, x => fmul(x, s))
  pure def det3(m) =
    (m[0] * (m[4] * m[8] - m[5] * m[7]) - m[1] * (m[3] * m[8] - m[5] * m[6])
      + m[2] * (m[3] * m[7] - m[4] * m[6])) / (ONE * ONE)
  pure def adet3(m) = {   // permanent of absolute values: rounding error scale
    val n = lmap(m, x => iabs(x))
    (n[0] * (n[4] * n[8] + n[5] * n[7]) + n[1] * (n[3] * n[8] + n[5] * n[6])
      + n[2] * (n[3] * n[7] + n[4] * n[6])) / (ONE * ONE)
  }
  // transposed cofactors, exact integers scaled by ONE^2
  pure def adj3(m) = [
    m[4] * m[8] - m[5] * m[7], m[2] * m[7] - m[1] * m[8], m[1] * m[5] - m[2] * m[4],
    m[5] * m[6] - m[3] * m[8], m[0] * m[8] - m[2] * m[6], m[2] * m[3] - m[0] * m[5],
    m[3] * m[7] - m[4] * m[6], m[1] * m[6] - m[0] * m[7], m[0] * m[4] - m[1] * m[3] ]
  pure def aadj3(m) = {
    val n = lmap(m, x => iabs(x))
    [ n[4] * n[8] + n[5] * n[7], n[2] * n[7] + n[1] * n[8], n[1] * n[5] + n[2] * n[4],
      n[5] * n[6] + n[3] * n[8], n[0] * n[8] + n[2] * n[6], n[2] * n[3] + n[0] * n[5],
      n[3] * n[7] + n[4] * n[6], n[1] * n[6] + n[0] * n[7], n[0] * n[4] + n[1] * n[3] ] }
  pure def det3raw(m) =
    m[0] * (m[4] * m[8] - m[5] * m[7]) - m[1] * (m[3] * m[8] - m[5] * m[6])
      + m[2] * (m[3] * m[7] - m[4] * m[6])                      // scaled ONE^3
  pure def minv(m) = { val d = det3raw(m) lmap(adj3(m), c => c * ONE * ONE / d) }
  pure val MID: List[int] = [ONE, 0, 0, 0, ONE, 0, 0, 0, ONE]
  pure def mmax(m: List[int]): int = m.foldl(0, (s, x) => imax(s, iabs(x)))
  // 2^-24 * n * scale, plus a floor far below anything observable
  pure def ulps(n, scale) = n * scale / 2^24 + 2^20

  // the last call; the inputs of the next one may repeat some of its inputs
  var ev: Ev

  pure def mk(op: str, a: List[int], e: List[int], t: List[int]): Ev = { op: op, a: a, e: e, t: t }
  action emit(e: Ev): bool = all { ev' = e }
  // (only values of ordinary size are handed on)
  def prev = lmap(ev.a, x => if (iabs(x) > 2^(PB + 20) or (x != 0 and iabs(x) < 2^(PB - 45))) 3 * ONE else x)

  action init = all { ev' = NOEV }
}
