// C17: gamuts built from primaries and white, or from a matrix.
module c17_gamut {
  import gamut.* from "./gamut"
  export gamut.*
  pure def colsum(m: M9, j: int): int = m.v[j] + m.v[3 + j] + m.v[6 + j]
  // chromaticity of column j: x, y, z; error from the matrix
  pure def chromOf(m: M9, j: int): List[int] = { val t = colsum(m, j) [fdiv(m.v[j], t), fdiv(m.v[3 + j], t), fdiv(m.v[6 + j], t)] }
  pure def chromTol(m: M9, j: int): List[int] = {
    val t = iabs(colsum(m, j))
    val at = iabs(m.v[j]) + iabs(m.v[3 + j]) + iabs(m.v[6 + j])
    val td = m.d[j] + m.d[3 + j] + m.d[6 + j] + ulps(2, at)
    [0, 3, 6].foldl([], (l, k) => l.append(fdiv(m.d[k + j], t) + fdiv(fmul(iabs(m.v[k + j]), td), t) * ONE / t + ulps(2, fdiv(iabs(m.v[k + j]), t)))) }
  pure def whiteTol(m: M9): List[int] = [0, 3, 6].foldl([], (l, k) => l.append(m.d[k] + m.d[k + 1] + m.d[k + 2]
      + ulps(8, iabs(m.v[k]) + iabs(m.v[k + 1]) + iabs(m.v[k + 2]))))
  pure def whiteOf(m: M9): List[int] = [m.v[0] + m.v[1] + m.v[2], m.v[3] + m.v[4] + m.v[5], m.v[6] + m.v[7] + m.v[8]]
  pure def describe(op: str, a: List[int], g: G): Ev =
    mk(op, a, g.to.v.concat(g.fr.v).concat(chromOf(g.to, 0)).concat(chromOf(g.to, 1)).concat(chromOf(g.to, 2)).concat(whiteOf(g.to)).concat(whiteOf(g.to)),
              g.to.d.concat(g.fr.d).concat(chromTol(g.to, 0)).concat(chromTol(g.to, 1)).concat(chromTol(g.to, 2)).concat(whiteTol(g.to)).concat(whiteTol(g.to)))
  action build = {
    nondet r = 0.to(PBITS).oneOf()
    val p = primaries(r)
    emit(describe("gamut", p, gamutOf(p, 0)))
  }
  // the promise itself: unit RGB -> chromaticities given, RGB (1,1,1) -> white with Y = 1, there and back
  action promise = {
    nondet r = 0.to(PBITS).oneOf()
    val p = primaries(r)
    val g = gamutOf(p, 0)
    val w = wxyz(p[6], p[7])
    emit(mk("gamut_promise", p,
      [p[0], p[1], p[2], p[3], p[4], p[5], w[0], ONE, w[2]].concat(MID),
      [chromTol(g.to, 0)[0], chromTol(g.to, 0)[1], chromTol(g.to, 1)[0], chromTol(g.to, 1)[1], chromTol(g.to, 2)[0], chromTol(g.to, 2)[1]]
        .concat(whiteTol(g.to)).concat(mulE(g.fr, g.to).d)))
  }
  action color = {
    nondet r = 0.to(PBITS).oneOf()
    nondet q = 0.to(drawBits(3)).oneOf()
    val p = primaries(r)
    val g = gamutOf(p, 0)
    val x = draw(q, 3, [], w => gW(w))
    val y = appE(g.to, exact(x))
    val z = appE(g.fr, exact(x))
    emit(mk("gamut_color", p.concat(x), y.v.concat(z.v).concat(x).concat(x), y.d.concat(z.d).concat(appE(g.fr, y).d).concat(appE(g.to, z).d)))
  }
  // from a matrix: kept as given, inverse derived
  action matrix = {
    nondet r = 0.to(PBITS).oneOf()
    nondet k = 0.to(23).oneOf()
    nondet q = 0.to(2^120 - 1).oneOf()
    val g = gamutOf(primaries(r), 0)
    val m0 = if (k == 0) MID else if (k == 1) HPE else if (k == 2) BRAD else if (k == 3) mmul(BRAD, g.to.v) else if (k < 8) g.to.v else if (k < 16) g.fr.v
             else structured(q / 2^60, range(0, 9).foldl([], (l, i) => { val w = q / 2^(6 * i) % 64 l.append(if (k < 20) (w % 9 - 4) * ONE else rat(w - 32, 16)) }), 0)
    val m = lmap(m0, t => toF32(t))
    all { iabs(det3(m)) > ONE / 50, Set(0, 1, 2).forall(j => iabs(colsum(gamutFrom(m).to, j)) > ONE / 100), emit(describe("gamut_matrix", m, gamutFrom(m))) }
  }
  action step = any { build, promise, color, matrix }

  val laws = and {
    // the definition keeps its promise exactly
    ev.op != "gamut" or {
      val t: M9 = { v: range(0, 9).foldl([], (l, i) => l.append(ev.e[i])), d: zero9 }
      and { Set(0, 1, 2).forall(j => iabs(chromOf(t, j)[0] - ev.a[2 * j]) < 2^48 and iabs(chromOf(t, j)[1] - ev.a[2 * j + 1]) < 2^48),
            iabs(whiteOf(t)[1] - ONE) < 2^48, iabs(whiteOf(t)[0] - fdiv(ev.a[6], ev.a[7])) < 2^48 } }
  }
}
