// C28: the least-squares solver and the decomposition behind it
module c28_solver {
  import lsq.* from "./lsq"
  export lsq.*
  pure def flat(a: Mat): List[int] = a.foldl([], (l, r) => l.concat(r))
  pure def small(w: int): int = (w % 7 - 3) * ONE
  pure def sparse(w: int): int = if (w % 4 == 0) (w / 4 % 5 - 2) * ONE else 0
  pure def byte(w: int): int = toF32((w % 256) * ONE / 255)
  pure def entry(kind: int, w: int): int =
    if (kind == 0) small(w) else if (kind == 1) sparse(w) else if (kind == 2) byte(w) else if (kind == 3 and w % 3 == 0) 0 else gS(w)
  pure val B = 44
  // m rows of n0 columns
  pure def basis(r: int, m: int, n: int, kind: int): Mat =
    range(0, m).foldl([], (l, i) => l.append(range(0, n).foldl([], (k, j) =>
      k.append(if (kind == 4) (if (i == j) ONE else 0) else entry(kind, r / 2^(B * (i * n + j)) % 2^B)))))
  // a column of the system: source column (-1: none mentions it) and factor
  type Col = { p: int, s: int }
  pure def cols(n0: int, x: int): List[Col] = {
    val base: List[Col] = range(0, n0).foldl([], (l, j) => l.append({ p: j, s: ONE }))
    val k = x % 8
    val extra: Col = if (k < 4) { p: -1, s: 0 } else { p: x / 64 % n0, s: [ONE, -ONE, 2 * ONE, ONE / 2][x / 8 % 4] }
    val at = x / 1024 % (n0 + 1)
    if (x / 2^20 % 2 == 0) base else base.slice(0, at).concat([extra]).concat(base.slice(at, n0)) }
  pure def expand(a: Mat, c: List[Col]): Mat =
    a.foldl([], (l, r) => l.append(c.foldl([], (k, q) => k.append(if (q.p < 0) 0 else fmul(r[q.p], q.s)))))
  pure def weight(c: List[Col], p: int): int = c.foldl(0, (s, q) => if (q.p == p) s + fsq(q.s) else s)

  // base solution with its error scale: (x, tol); empty when the columns are too dependent
  pure def solveB(a: Mat, b: List[int], n: int): (List[int], int) = {
    val c = tr(a, n)
    val g = gram(c)
    val gi = inverse(g, n)
    if (gi.length() == 0) ([], 0)
    else {
      val x = mv(gi, c.foldl([], (l, k) => l.append(vdotp(k, b))))
      val res = lmap2(mv(a, x), b, (p, q) => p - q)
      val kap2 = fsqrt(fmul(fro2(g), fro2(gi)))                  // condition number squared (at most n times)
      val kap = fsqrt(kap2)
      if (kap > 300 * ONE) ([], 0)
      else (x, ulps(6, fmul(kap, norm(x)) + fdiv(fmul(kap2, norm(res)), fsqrt(fro2(a))) + fdiv(fmul(kap, norm(b)), fsqrt(fro2(a))))) } }
  pure def emitSys(a: Mat, c: List[Col], b: List[int], y: (List[int], int), ka: int, kb: int): Ev = {
    val f = expand(a, c)
    val n = c.length()
    val x = y._1
    val ex = c.foldl([], (l, q) => l.append(if (q.p < 0 or x.length() == 0) 0 else x[q.p] * q.s / weight(c, q.p)))
    val sc = 2^(24 + kb - ka)
    val arg = [f.length() * ONE, n * ONE, ka * ONE, kb * ONE].concat(flat(f)).concat(b)
    mk("lsq", arg, [ONE].concat(lmap(ex, v => v * sc / 2^24)),
      [0].concat(ex.foldl([], (l, v) => l.append(if (x.length() == 0) -1 else 2 * y._2 * sc / 2^24 + 2^10)))) }
  pure def rhs(r: int, m: int): List[int] = range(0, m).foldl([], (l, i) => l.append(gS(slot(r, i))))
  pure val RB = 2^(B * 16) - 1
  action system = {
    nondet r = 0.to(2^(B * 77) - 1).oneOf()
    nondet s = 0.to(RB).oneOf()
    nondet x = 0.to(2^40 - 1).oneOf()
    nondet q = 0.to(2^30 - 1).oneOf()
    val n0 = 1 + q % 6
    val c = cols(n0, x)
    val m = c.length() + q / 8 % 5
    val a = basis(r, m, n0, q / 64 % 5)
    val ok = q / 1024 % 2 == 0
    // consistent right-hand side: the columns combined with small integers
    val b = if (ok) lmap(mv(a, range(0, n0).foldl([], (l, j) => l.append(small(slot(s, j))))), toF32) else rhs(s, m)
    val ka = if (q / 2^12 % 2 == 0) 0 else q / 2^13 % 21 - 10
    val kb = if (q / 2^12 % 2 == 0) 0 else q / 2^18 % 21 - 10
    emit(emitSys(a, c, b, solveB(a, b, n0), ka, kb))
  }
  // repeated singular values: orthogonal columns, some of equal length, under a change of basis
  action orthogonal = {
    nondet q = 0.to(2^60 - 1).oneOf()
    nondet s = 0.to(RB).oneOf()
    val f = [ONE, ONE, 2 * ONE, toF32(ONE / 3), ONE / 4, 7 * ONE]
    val h: Mat = [[ONE, ONE, ONE, ONE], [ONE, -ONE, ONE, -ONE], [ONE, ONE, -ONE, -ONE], [ONE, -ONE, -ONE, ONE]]
    val n = 2 + q % 3
    val a: Mat = range(0, 4 + q / 4 % 4).foldl([], (l, i) => l.append(range(0, n).foldl([], (k, j) =>
      k.append(fmul(f[q / 2^(8 + 3 * j) % 6], if (i < 4) h[i][(j + q / 2^30) % 4] else 0)))))
    val b = rhs(s, a.length())
    emit(emitSys(a, cols(n, 0), b, solveB(a, b, n), 0, 0))
  }
  // fewer equations than unknowns
  action wide = {
    nondet r = 0.to(2^(B * 42) - 1).oneOf()
    nondet q = 0.to(2^20 - 1).oneOf()
    val n = 2 + q % 5
    val m = 1 + q / 8 % (n - 1)
    val a = basis(r, m, n, q / 64 % 4)
    emit(mk("lsq", [m * ONE, n * ONE, 0, 0].concat(flat(a)).concat(range(0, m).foldl([], (l, i) => l.append(ONE))),
      [0].concat(range(0, n).foldl([], (l, i) => l.append(0))), [0].concat(range(0, n).foldl([], (l, i) => l.append(-1)))))
  }
  // relative tolerance of the singular values: diagonal systems
  action cut = {
    nondet q = 0.to(2^40 - 1).oneOf()
    nondet s = 0.to(RB).oneOf()
    val n = 2 + q % 5
    val d = range(0, n).foldl([], (l, j) => l.append([ONE, ONE / 2, ONE / 16, ONE / 2^8, ONE / 2^12, ONE / 2^20, toF32(ONE / 10), toF32(ONE / 50)][q / 2^(4 + 3 * j) % 8] * (if (q / 2^(24 + j) % 2 == 0) 1 else -1)))
    val k = q / 2^32 % 8
    val tol = [0, ONE / 2^6, ONE / 2^10, ONE / 2^14, toF32(ONE / 5), toF32(ONE / 3), toF32(ONE / 30), 3 * ONE / 4][k]        // 0: the default, 1e-5
    val b = rhs(s, n)
    val top = d.foldl(0, (z, v) => imax(z, iabs(v)))
    val th = if (tol == 0) top / 100000 else fmul(tol, top)
    val x = lmap2(d, b, (u, v) => if (iabs(u) < th) 0 else fdiv(v, u))
all { d.select(u => iabs(iabs(u) - th) * 50 < th).length() == 0,
      emit(mk("lsq_cut", [n * ONE, tol].concat(d).concat(b), [ONE].concat(x), [0].concat(lmap(x, v => ulps(16, iabs(v)))))) }
  }
  // the decomposition: deviation of U'U and V'V from 1, of U W V' from the input (relative to its size), negative
  // singular values, in units of the tolerance; return code
  action factors = {
    nondet r = 0.to(2^(B * 77) - 1).oneOf()
    nondet x = 0.to(2^40 - 1).oneOf()
    nondet q = 0.to(2^30 - 1).oneOf()
    val n0 = 1 + q % 6
    val c = cols(n0, x)
    val m = c.length() + q / 8 % 5
    val a = expand(basis(r, m, n0, q / 64 % 5), c)
    val ka = if (q / 2^12 % 2 == 0) 0 else q / 2^13 % 41 - 20
    val n = c.length()
    val t = dec(2, 6) * n
    emit(mk("svd", [m * ONE, n * ONE, ka * ONE].concat(flat(a)), [0, 0, 0, 0, ONE, fsqrt(fro2(a)) * 2^(20 + ka) / 2^20],
       [t, t, t, 0, 0, ulps(60 * n, fsqrt(fro2(a)) * 2^(20 + ka) / 2^20)]))
  }
  // families of matrices: kind, rows, columns, scale exponent, seed, how many.  Matrix t has the entries
  // entry(kind, h(t, i, j)), h the replayer's mixing function; every eighth has a zero or a repeated column.
  // worst deviations as for svd, failures, how many
  action family = {
    nondet q = 0.to(2^60 - 1).oneOf()
    val big = q / 2^50 % 8 == 0
    val n = 1 + q % (if (big) 32 else 9)
    val m = n + q / 64 % (if (big) 200 else 8)
    val t = dec(2, 6) * n + (if (big) dec(1, 7) * m else 0)
    emit(mk("svd_family", [(q / 2^8 % 6) * ONE, m * ONE, n * ONE, (if (q / 2^12 % 2 == 0) 0 else q / 2^13 % 21 - 10) * ONE, (q / 2^20 % 2^24) * ONE, (if (big) 30 else 2000) * ONE],
      [0, 0, 0, 0, 0, 0], [t, t, t, 0, 0, -1]))
  }
  // systems of any size whose solution is known: worst error, failures, how many
  action sized = {
    nondet q = 0.to(2^60 - 1).oneOf()
    val tall = q / 2^52 % 4 == 0
    val n = 1 + q % (if (tall) 5 else 30)
    val m = n + (if (tall) 1000 + q / 64 % 6000 else q / 64 % (if (q / 2^50 % 4 == 0) 500 else 120))
    emit(mk("lsq_family", [(q / 2^15 % 2) * ONE, m * ONE, n * ONE, (if (q / 2^16 % 2 == 0) 0 else q / 2^17 % 21 - 10) * ONE, (q / 2^22 % 2^24) * ONE, 20 * ONE],
      [0, 0, 0], [dec(2, 5) + dec(4, 7) * m, 0, -1]))
  }
  // sparse matrices met once with a wrong decomposition: rounding noise in a zero column becomes subnormal
  pure def unit(n: int, j: int, k: int): List[int] = range(0, n).foldl([], (l, i) => l.append(if (i == j) k * ONE else 0))
  pure val HARD: List[Mat] = [
    [unit(6, 0, -1), unit(6, 9, 0), unit(6, 4, 1), [-ONE, 0, 0, 0, 0, ONE], unit(6, 9, 0), unit(6, 9, 0), unit(6, 9, 0), [ONE, 0, 0, 0, ONE, 0], unit(6, 9, 0), unit(6, 3, 1), unit(6, 2, -1)],
    [unit(8, 0, 1), unit(8, 9, 0), [ONE, 0, 0, -ONE, ONE, 0, 0, 0], unit(8, 9, 0), unit(8, 9, 0), unit(8, 0, 1), [0, ONE, 0, 0, 0, -ONE, 0, 0], unit(8, 9, 0), unit(8, 9, 0)],
    [unit(6, 5, 1), unit(6, 5, 1), [-ONE, 0, -ONE, 0, ONE, 0], unit(6, 3, 1), unit(6, 3, -1), unit(6, 9, 0), unit(6, 9, 0), [-ONE, 0, -ONE, 0, 0, 0], unit(6, 1, -1)] ]
  action hard = {
    nondet k = (-10).to(10).oneOf()
    nondet i = 0.to(2).oneOf()
    val a = HARD[i]
    val n = a[0].length()
    val t = dec(2, 6) * n
    emit(mk("svd", [a.length() * ONE, n * ONE, k * ONE].concat(flat(a)), [0, 0, 0, 0, ONE, fsqrt(fro2(a)) * 2^(20 + k) / 2^20],
       [t, t, t, 0, 0, ulps(60 * n, fsqrt(fro2(a)) * 2^(20 + k) / 2^20)]))
  }
  action stepFamily = any { family, family, sized, hard }
  action step = any { system, system, orthogonal, wide, cut, factors, factors }
  val laws = ev.e.length() == ev.t.length()
}
