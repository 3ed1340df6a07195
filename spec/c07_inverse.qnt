// C07: inversion.  The inverse is the exact adjugate over the determinant; the
// tolerance is the first-order rounding error of computing it in float32.
module c07_inverse {
  import linalg.* from "./linalg"
  export linalg.*

  pure val PERMS = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]]
  // permanent over |determinant|: how much cancellation the determinant suffers
  pure def cond(m) = { val d = iabs(det3raw(m)) if (d == 0) 2^40 else adet3(m) * ONE * ONE / d }
  // a boosted matrix has a dominant permutation, hence is well conditioned
  pure def boost(m, p, s) = {
    val b = 4 * mmax(m) + ONE
    val q = PERMS[p]
    range(0, 9).foldl([], (l, k) => l.append(
      if (q[k / 3] == k % 3) toF32(m[k] + (if (s / 2^(k / 3) % 2 == 0) b else -b)) else m[k]))
  }
  pure def tolInv(m) = {
    val d = iabs(det3raw(m))
    val ad = adet3(m)
    val inv = minv(m)
    val aa = aadj3(m)
    range(0, 9).foldl([], (l, k) => l.append(
      2 * (6 * aa[k] * ONE * ONE / d + 12 * iabs(inv[k]) * (ad * ONE * ONE) / d) / 2^24 + 2^20))
  }
  pure def prodTol(x, ax, tx, y, ay, ty) = madd(madd(mamul(tx, ay), mamul(ax, ty)),
                                      lmap(mamul(ax, ay), s => ulps(4, s)))
  // products of three entries, and the determinant, stay inside the float32 range
  pure def inSpan(m) = { val d = iabs(det3raw(m))
    and { mmax(m) <= 2^(PB + 40), m.select(x => x != 0 and iabs(x) < 2^(PB - 50)).length() == 0, d == 0 or (2^(3 * PB - 110) <= d) } }
  action doInv = {
    nondet r = 0.to(drawBits(9)).oneOf()
    nondet p = 0.to(5).oneOf()
    nondet s = 0.to(7).oneOf()
    nondet k = (-28).to(28).oneOf()
    nondet scaled = 0.to(3).oneOf()
    val a0 = structured(r / 2^(SLOT * 9 + 24 + 45), draw(r, 9, prev, w => gW(w)), 0)
    val a1 = if (cond(a0) > 256) boost(a0, p, s) else a0
    val a2 = if (scaled > 0 or k == 0) a1 else lmap(a1, x => toF32(if (k > 0) x * 2^k else x / 2^(-k)))
    val a = if (inSpan(a2)) a2 else if (inSpan(a1)) a1 else MID
    val zero = lmap(a, x => 0)
    if (cond(a) > 256) emit(mk("mat_inv", MID, MID.concat(MID).concat(MID), zero.concat(zero).concat(zero)))
    else {
      val inv = minv(a)
      val ti = tolInv(a)
      val aa = lmap(a, x => iabs(x))
      val ai = lmap(inv, x => iabs(x))
      emit(mk("mat_inv", a, inv.concat(MID).concat(MID),
        ti.concat(prodTol(a, aa, zero, inv, ai, ti)).concat(prodTol(inv, ai, ti, a, aa, zero))))
    }
  }
  action doXtalk = {
    nondet r = 0.to(drawBits(1)).oneOf()
    nondet sel = 0.to(3).oneOf()
    val q = draw(r, 1, prev, w => if (sel == 0) gW(w) else if (sel == 1) gS(w) else g01(w) / 2)[0]
    val x = if (iabs(3 * q - ONE) < ONE / 64) toF32(dec(2, 1)) else toF32(q)
    val a = ONE - 2 * x
    val c = [a, x, x, x, a, x, x, x, a]
    val d = 3 * x - ONE
    val p = fdiv(x - ONE, d)
    val b = fdiv(x, d)
    val i = [p, b, b, b, p, b, b, b, p]
    val rel = fdiv(3 * iabs(x) + ONE, iabs(d))            // amplification of 3r-1
    val ac = lmap(c, v => imax(iabs(v), iabs(x) + ONE))
    val ai = lmap(i, v => iabs(v) + fdiv(ONE, iabs(d)))
    val tc = lmap(ac, v => ulps(3, v))
    val ti = lmap(ai, v => ulps(4, v) + ulps(4, fmul(v, rel)))
    emit(mk("mat_xtalk", [x], c.concat(i).concat(MID).concat(MID),
      tc.concat(ti).concat(prodTol(c, ac, tc, i, ai, ti)).concat(prodTol(i, ai, ti, c, ac, tc))))
  }
  action step = any { doInv, doInv, doInv, doXtalk }

  pure def closeM(x, y, s) = range(0, 9).forallIn(i => iabs(x[i] - y[i]) <= s)
  pure def forallIn(l: List[int], f: (int) => bool): bool = l.foldl(true, (b, x) => b and f(x))
  val laws = and {
    // the specification's inverse is an inverse, on both sides
    ev.op == "mat_inv" implies {
      val i = ev.e.slice(0, 9)
      val s = 2^36 + fmul(mmax(ev.a), ONE) / 2^50 + mmax(i) / 2^50 + fmul(mmax(ev.a), mmax(i)) / 2^50
      closeM(mmul(ev.a, i), MID, s) and closeM(mmul(i, ev.a), MID, s)
    },
    ev.op == "mat_xtalk" implies
      closeM(mmul(ev.e.slice(0, 9), ev.e.slice(9, 18)), MID, 2^40 + fmul(mmax(ev.e), mmax(ev.e)) / 2^60),
    ev.a.select(x => not(isF32(x))).length() == 0
  }
}
