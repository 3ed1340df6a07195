// Input generation for the numeric specifications.  A step draws one random
// word; these functions cut it into corner-biased numbers that are exactly
// representable as float32, so that the specification and the code start from
// the same real numbers.
module gen {
  import fixp.* from "./fixp"

  // one call of the library: operation, inputs, expected outputs, tolerances.
  // tolerance -1: unconstrained, -2: NaN expected.
  type Ev = { op: str, a: List[int], e: List[int], t: List[int] }
  pure val NOEV: Ev = { op: "init", a: [], e: [], t: [] }

  pure val SLOT = 44
  pure def slot(r, i) = r / 2^(SLOT * i) % 2^SLOT

  // [0,1] with corners
  pure def g01(w) = {
    val s = w % 32
    val m = w / 32 % 2^24
    val k = w / 2^29 % 2^15
    if (s == 0) 0
    else if (s == 1) ONE
    else if (s == 2) ONE - (1 + k % 8) * 2^72            // just below 1
    else if (s <= 5) m * 2^72 / 2^(k % 24) / 2^48 * 2^48  // log-scaled small
    else if (s <= 7) toF32((m % 256) * ONE / 255)
    else if (s <= 9) (m % 17) * ONE / 16
    else if (s == 10) toF32((m % 101) * ONE / 100)
    else m * 2^72
  }
  // strictly positive (0,1]
  pure def g01p(w) = { val v = g01(w) if (v == 0) HALF else v }
  // signed, magnitude up to 1
  pure def gS(w) = { val v = g01(w / 2) if (w % 2 == 0) v else -v }
  // signed, magnitude 2^-12 .. 2^12 and zero; small integers are frequent
  pure def gW(w) = {
    val s = w % 16
    val m = w / 16 % 2^24
    val k = w / 2^28 % 2^15
    val v =
      if (s == 0) 0
      else if (s <= 4) (m % 8) * ONE
      else if (s == 5) (m % 2000) * ONE
      else if (s <= 8) m * 2^72
      else (2^23 + m % 2^23) * 2^(61 + k % 25)
    if (k / 2^10 % 2 == 0) v else -v
  }
  // non-negative, up to 4 with corners
  pure def gC(w) = {
    val v = g01(w / 4)
    if (w % 4 == 0) 2 * v else if (w % 4 == 1) 4 * v else v
  }
  // uniform 24-bit value in [lo, hi), truncated to float32
  pure def gR(w, lo, hi) = toF32(lo + w / 32 % 2^32 * (hi - lo) / 2^32)

  // n values; a "sticky" draw repeats some of the values of the previous call, so that histories with shared
  // arguments occur; other draws relate the values to each other (equal operands, equal channels, neighbours, zeros)
  pure def related(k: int, b: int, l: List[int], i: int, v: int): int =
    if (i == 0 or (k == 6 and b % 2 == 0)) (if (k == 6 and b % 2 == 0) 0 else v)
    else if (k == 0 and b % 2 == 0) l[b / 2 % i]                             // an earlier value
    else if (k == 1 and i >= 3) l[i - 3]                                      // equal operands
    else if (k == 2 or (k == 3 and i < 3)) l[0]                               // all equal; a grey first operand
    else if (k == 4 and i >= 3) toF32(l[i - 3] + l[i - 3] / 2^(22 - b % 8))   // nearly equal operands
    else if (k == 5 and b % 2 == 0) toF32(l[b / 2 % i] - l[b / 2 % i] / 2^(22 - b % 8))
    else v
  pure def draw(r: int, n: int, prev: List[int], g: (int) => int): List[int] = {
    val top = r / 2^(SLOT * n)
    val sticky = top % 4 == 0
    val rel = top / 2^(2 + n)
    range(0, n).foldl([], (l, i) =>
      if (sticky and i < prev.length() and top / 2^(2 + i) % 2 == 0) l.append(prev[i])
      else l.append(related(rel % 16, rel / 2^(4 + 4 * i) % 16, l, i, g(slot(r, i)))))
  }
  // the same, for values that may be negative: also opposite operands
  pure def drawS(r: int, n: int, prev: List[int], g: (int) => int): List[int] = {
    val a = draw(r, n, prev, g)
    val m = r / 2^(SLOT * n + 6 + n) % 8
    if (m == 0 and n > 3) a.slice(0, 3).concat(range(3, n).foldl([], (l, i) => l.append(-a[i - 3])))
    else if (m == 1) range(0, n).foldl([], (l, i) => l.append(-iabs(a[i])))
    else a }
  // operands of very different magnitude: the first cut values and the others are scaled by powers of two
  pure def scale2(x: int, k: int): int =
    if (k > 0 and iabs(x) < 2^(PB + 16)) x * 2^k else if (k < 0 and iabs(x) > 2^(PB - 16)) toF32(x / 2^(-k)) else x
  pure def spread(w: int, a: List[int], cut: int): List[int] = {
    val k1 = if (w % 4 == 0) w / 16 % 49 - 24 else 0
    val k2 = if (w / 4 % 4 == 0) w / 1024 % 49 - 24 else 0
    range(0, a.length()).foldl([], (l, i) => l.append(scale2(a[i], if (i < cut) k1 else k2))) }
  pure def drawV(r: int, n: int, cut: int, prev: List[int], g: (int) => int): List[int] =
    spread(r / 2^(SLOT * n + 6 + 5 * n), drawS(r, n, prev, g), cut)
  // infinities are written as the power of two just above the largest float32
  pure val INF = 2^(PB + 128)
  pure def infinities(w: int, a: List[int]): List[int] =
    range(0, a.length()).foldl([], (l, i) => l.append(if (w % 5 == 0 and w / 5 / 8^i % 8 == 0) INF
                                                      else if (w % 5 == 0 and w / 5 / 8^i % 8 == 1) -INF else a[i]))
  // all values, or each on its own, down to 2^-96 or up to 2^120: for operations that only compare or move values
  pure def remote1(x: int, k: int): int =
    if (k < 64) toF32(x / 2^(24 + k)) else if (iabs(x) < 2^(PB + 16)) x * 2^(16 + k % 96) else x
  pure def remote(w: int, a: List[int]): List[int] =
    if (w % 8 == 0) range(0, a.length()).foldl([], (l, i) => l.append(remote1(a[i], w / 8 % 128)))
    else if (w % 8 == 1) range(0, a.length()).foldl([], (l, i) => l.append(if (w / 8 / 2^i % 2 == 0) remote1(a[i], w / 8 / 8^i % 128) else a[i]))
    else a
  pure def drawI(r: int, n: int, prev: List[int], g: (int) => int): List[int] =
    infinities(r / 2^(SLOT * n + 6 + 5 * n), remote(r / 2^(SLOT * n + 24 + 5 * n), drawV(r, n, n, prev, g)))
  pure def drawBits(n) = 2^(SLOT * n + 80 + 5 * n) - 1
  // matrices with structure (the nine values from o on): entries forced to zero (triangular, diagonal, a row or a column,
  // single ones), unit or equal diagonal, symmetric, antisymmetric, one entry off the identity, one entry per row,
  // rows that sum to one, entries -1, 0 and 1
  pure val PERM3 = [[0, 4, 8], [0, 5, 7], [1, 3, 8], [1, 5, 6], [2, 3, 7], [2, 4, 6]]
  pure def inMask(m: int, i: int): bool = m / 2^i % 2 == 1
  pure def structured(w: int, a: List[int], o: int): List[int] = {
    val k = w % 16
    val q = w / 16
    val mask = [238, 6, 72, 56, 438, 146, 73, 292, 140, 2^(q / 16 % 9), q / 16 % 512, q / 16 % 512, 38, 200, 238 - 2, 238 - 128][q % 16]
    val one = [1, 2, 3, 5, 6, 7][q % 6]
    range(0, a.length()).foldl([], (l, j) => { val i = j - o
      val d = i % 4 == 0
      val mir = 3 * (i % 3) + i / 3                     // the transposed place
      l.append(if (i < 0 or i > 8 or k < 4) a[j]
        else if (k < 6) (if (inMask(mask, i)) 0 else a[j])
        else if (k < 8) (if (d) ONE else if (inMask(mask, i)) 0 else a[j])
        else if (k == 8) (if (mir < i) l[o + mir] else a[j])
        else if (k == 9) (if (mir < i) -l[o + mir] else a[j])
        else if (k == 10) (if (i == one) a[j] else if (d) ONE else 0)
        else if (k == 11) (if (i == one) a[j] else if (d) a[o] else 0)
        else if (k == 12) (if (d) a[o] else a[j])
        else if (k == 13) { val z = PERM3[q % 6] if (i == z[0] or i == z[1] or i == z[2]) (if (q / 8 % 2 == 0) ONE else a[j]) else 0 }
        else if (k == 14) (if (i % 3 == 2) toF32(ONE - l[j - 1] - l[j - 2]) else a[j])
        else (q / 3^i % 3 - 1) * ONE) }) }
}
