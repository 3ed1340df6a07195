// Least squares over the reals, matrices as lists of rows.
module lsq {
  import linalg.* from "./linalg"
  export linalg.*
  type Mat = List[List[int]]
  pure def vdotp(a: List[int], b: List[int]): int = range(0, a.length()).foldl(0, (s, i) => s + a[i] * b[i]) / ONE
  pure def column(a: Mat, j: int): List[int] = a.foldl([], (l, r) => l.append(r[j]))
  pure def tr(a: Mat, n: int): Mat = range(0, n).foldl([], (l, j) => l.append(column(a, j)))
  pure def mv(a: Mat, x: List[int]): List[int] = a.foldl([], (l, r) => l.append(vdotp(r, x)))
  pure def fro2(a: Mat): int = a.foldl(0, (s, r) => s + vdotp(r, r))
  pure def norm(v: List[int]): int = fsqrt(vdotp(v, v))
  // Gram matrix of the columns c
  pure def gram(c: Mat): Mat = c.foldl([], (l, x) => l.append(c.foldl([], (k, y) => k.append(vdotp(x, y)))))
  // Gauss-Jordan on [G | I]; G is positive definite, so the pivots are the diagonal ones.
  // A pivot below the threshold makes the result empty.
  pure def inverse(g: Mat, n: int): Mat = {
    val m0: Mat = range(0, n).foldl([], (l, i) => l.append(g[i].concat(range(0, n).foldl([], (k, j) => k.append(if (i == j) ONE else 0)))))
    val out: Mat = range(0, n).foldl(m0, (m, p) =>
      if (m.length() == 0) []
      else if (m[p][p] < ONE / 2^40) []
      else {
        val d = m[p][p]
        val rp = lmap(m[p], x => x * ONE / d)
        range(0, n).foldl([], (l, i) =>
          if (i == p) l.append(rp)
          else { val f = m[i][p] l.append(lmap2(m[i], rp, (x, y) => x - f * y / ONE)) }) })
    out.foldl([], (l, r) => l.append(r.slice(n, 2 * n))) }
}
