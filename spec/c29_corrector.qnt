// C29: colour correction from chart patches
module c29_corrector {
  import spectral.* from "./spectral"
  export spectral.*
  type Tri3 = List[int]
  pure def outerSum(t: List[Tri3], p: List[Tri3]): List[int] = {
    val z: List[int] = [0, 0, 0, 0, 0, 0, 0, 0, 0]
    range(0, p.length()).foldl(z, (m, i) => lmap2(m, range(0, 9), (x, k) => x + t[i][k / 3] * p[i][k % 3] / ONE)) }
  pure def fro(m: List[int]): int = fsqrt(m.foldl(0, (s, x) => s + x * x) / ONE)
  // (M, tolerance): M minimises sum |M p - t|^2; tolerance 0 when the patches hardly span three dimensions
  pure def best(p: List[Tri3], t: List[Tri3]): (List[int], int) = {
    val g = outerSum(p, p)
    val d = det3(g)
    val s = fro(g)
    if (s < ONE / 2^16 or d < 2^36) (MID, -1)
    else {
      val gi = minv(g)
      val m = mmul(outerSum(t, p), gi)
      val k2 = fmul(s, fro(gi))
      val k = fsqrt(k2)
      // residual and target sizes
      val r2 = range(0, p.length()).foldl(0, (z, i) => z + { val q = mapply(m, p[i]) fsq(q[0] - t[i][0]) + fsq(q[1] - t[i][1]) + fsq(q[2] - t[i][2]) })
      val b2 = range(0, p.length()).foldl(0, (z, i) => z + fsq(t[i][0]) + fsq(t[i][1]) + fsq(t[i][2]))
      val a = fsqrt(g[0] + g[4] + g[8])
      if (k > 5000 * ONE) (MID, -1)
      else (m, ulps(12, fmul(k, fro(m)) + fdiv(fmul(k2, fsqrt(r2)), a) + fdiv(fmul(k, fsqrt(b2)), a))) } }
  // (lmap(l, x => v) is not used for this: the simulator evaluates v inside lmap, and lmap is not re-entrant)
  pure def fill(n: int, v: int): List[int] = range(0, n).foldl([], (l, i) => l.append(v))
  pure def flat3(l: List[Tri3]): List[int] = l.foldl([], (s, x) => s.concat(x))
  pure def chan(kind: int, w: int): int = if (kind == 0) toF32((w % 256) * ONE / 255) else if (kind == 1) (w % 3 - 1) * ONE else if (kind == 2 and w % 2 == 0) 0 else g01(w / 2)
  // patches that hardly differ from greys
  pure def greyish(p: List[Tri3], j: int): List[Tri3] = if (j == 0) p else p.foldl([], (l, x) => l.append([x[0], toF32(x[0] + x[1] / 2^j), toF32(x[0] + x[2] / 2^j)]))
  pure def greyness(w: int): int = if (w % 3 > 0) 0 else 3 + w / 3 % 8
  pure val B = 44
  pure def patches(r: int, n: int, kind: int): List[Tri3] =
    range(0, n).foldl([], (l, i) => l.append([chan(kind, slot(r, 3 * i)), chan(kind, slot(r, 3 * i + 1)), chan(kind, slot(r, 3 * i + 2))]))
  pure def generator(r: int): List[int] = range(0, 9).foldl([], (l, i) => l.append(gS(slot(r, i)) * 2))
  pure def f3(v: List[int]): List[int] = lmap(v, toF32)

  // any patches and targets: linear in the patches, or anything
  action chart = {
    nondet r = 0.to(2^(B * 36) - 1).oneOf()
    nondet s = 0.to(2^(B * 36) - 1).oneOf()
    nondet q = 0.to(2^20 - 1).oneOf()
    val n = 3 + q % 10
    val p = greyish(patches(r, n, q / 16 % 3), greyness(q / 2^10))
    val m = generator(s)
    val t = if (q / 64 % 2 == 0) p.foldl([], (l, x) => l.append(f3(mapply(m, x)))) else patches(s, n, 3)
    val y = best(p, t)
    emit(mk("corr", [n * ONE].concat(flat3(p)).concat(flat3(t)), y._1, fill(9, y._2)))
  }
  // many patches, given by formulas; anything as targets
  action many = {
    nondet r = 0.to(2^(60 * 6) - 1).oneOf()
    nondet q = 0.to(2^20 - 1).oneOf()
    val n = if (q % 4 == 0) 24 + q / 4 % 8 else if (q % 4 == 1) 60 + q / 4 % 10 else if (q % 4 == 2) 12 + q / 4 % 120 else 120 + q / 4 % 280
    val f = range(0, 6).foldl([], (l, k) => l.append(roughPar(r / 2^(60 * k) % 2^60)))
    val j = greyness(q / 2^10)
    val p = greyish(range(0, n).foldl([], (l, i) => l.append([sample(f[0], i), sample(f[1], i), sample(f[2], i)])), j)
    val t = range(0, n).foldl([], (l, i) => l.append([sample(f[3], i), sample(f[4], i), sample(f[5], i)]))
    val y = best(p, t)
    emit(mk("corr_many", [n * ONE].concat(par(flat3(f))).concat([j * ONE]), y._1, fill(9, y._2)))
  }
  // families of byte-valued patch sets containing the three primaries, targets linear in them:
  // worst error / tolerance, how many
  action family = {
    nondet q = 0.to(2^40 - 1).oneOf()
    emit(mk("corr_family", [(3 + (if (q / 2^32 % 8 == 0) q / 2^35 else q % 9)) * ONE, (q / 16 % 4) * ONE, (q / 64 % 2^24) * ONE, 1000 * ONE], [0, 0], [dec(1, 4), -1]))
  }
  // the chart under a light, seen by an observer
  pure def reference(o: int, light: List[int]): List[Tri3] = {
    val c = [cmf(o, 0), cmf(o, 1), cmf(o, 2)]
    val lc = [lmap2(light, c[0], (x, y) => x * y / ONE), lmap2(light, c[1], (x, y) => x * y / ONE), lmap2(light, c[2], (x, y) => x * y / ONE)]
    val s = [vsum(c[0]), vsum(c[1]), vsum(c[2])]
    range(0, 24).foldl([], (l, k) => { val p = table(109 + k) l.append(range(0, 3).foldl([], (z, j) => z.append(fdiv(vdot(p, lc[j]), s[j])))) }) }
  pure val LD65 = table(9)
  pure val REF0: List[Tri3] = reference(0, LD65)
  pure def light(w: int): List[int] = if (w % 3 == 0) [0, 0, 1, 2, 0] else if (w % 3 == 1) [0, 1, 100 + w / 4 % 300, 1000, 3] else [1, w / 4 % 64, 300, 512, 5]
  action reference1 = {
    nondet q = 0.to(2^20 - 1).oneOf()
    val o = q % 3
    if (q / 4 % 4 == 0) { val y = flat3(reference(o, LD65)) emit(mk("ref_d65", [o * ONE], y, lmap(y, x => ulps(400, x)))) }
    else { val u = light(q / 16) val y = flat3(reference(o, spectrum(u))) emit(mk("ref", [o * ONE].concat(par(u)), y, lmap(y, x => ulps(400, x)))) }
  }
  // measured: the reference through a camera matrix, with or without noise
  pure def camera(r: int): List[int] = {
    val k = [dec(3, 1), dec(1, 1), dec(-2, 1)]
    range(0, 9).foldl([], (l, i) => l.append((if (i % 4 == 0) ONE else 0) + gS(slot(r, i)) * 3 / 10)) }
  pure def measured(ref: List[Tri3], cam: List[int], s: int, noisy: bool): List[Tri3] =
    range(0, 24).foldl([], (l, i) => { val v = mapply(cam, ref[i]) l.append(f3([v[0] + (if (noisy) gS(slot(s, 3 * i)) / 50 else 0), v[1] + (if (noisy) gS(slot(s, 3 * i + 1)) / 50 else 0), v[2] + (if (noisy) gS(slot(s, 3 * i + 2)) / 50 else 0)])) })
  pure def scaleRef(o: int, u: List[int], dflt: bool): List[Tri3] = if (dflt) (if (o == 0) REF0 else reference(o, LD65)) else reference(o, spectrum(u))
  // op corr_default: no light, no observer; corr_light: both given.  9 matrix entries, then the 72 values of the
  // gamut's toXYZ of the measured patches, then of its fromXYZ of those
  action against = {
    nondet r = 0.to(2^(B * 9) - 1).oneOf()
    nondet s = 0.to(2^(B * 72) - 1).oneOf()
    nondet q = 0.to(2^30 - 1).oneOf()
    val dflt = q % 3 == 0
    val o = if (dflt) 0 else q / 4 % 3
    val d65 = not(dflt) and q % 3 == 1                                          // the default light, another observer
    val u = light(q / 16)
    val ref = scaleRef(o, u, dflt or d65)
    val p = measured(ref, camera(r), s, q / 2 % 2 == 0)
    val y = best(p, ref)
    val m = y._1
    val big = ref.foldl(0, (z, t) => imax(z, imax3(iabs(t[0]), iabs(t[1]), iabs(t[2]))))
    val pm = p.foldl(0, (z, t) => imax(z, imax3(iabs(t[0]), iabs(t[1]), iabs(t[2]))))
    val dm = det3(m)
    val bad = y._2 < 0 or fro(m) < ONE / 2^16 or iabs(dm) * 100 < fmul(fro(m), fsq(fro(m)))
    val mi = if (bad) MID else minv(m)
    val kap = fmul(fro(m), fro(mi))
    val tx = if (bad) -1 else fmul(y._2 + ulps(400, fro(m)), pm) + ulps(60, fmul(fmul(kap, fro(m)), pm))
    val e = p.foldl([], (l, x) => l.concat(mapply(m, x)))
    val tm = if (bad) -1 else y._2 + ulps(400, fro(m))
    val tb = if (bad) -1 else ulps(120, fmul(fmul(kap, kap), pm))
    val a = if (dflt) flat3(p) else if (d65) [o * ONE].concat(flat3(p)) else [o * ONE].concat(par(u)).concat(flat3(p))
    emit(mk(if (dflt) "corr_default" else if (d65) "corr_d65" else "corr_light", a, m.concat(e).concat(flat3(p)).concat([ONE]),
      fill(9, tm).concat(fill(72, tx)).concat(fill(72, tb)).concat([0])))
  }
  action step = any { chart, chart, chart, many, reference1, against, family }
  val laws = ev.op != "corr" or ev.t[0] < 0 or iabs(ev.e[0]) < 2^120
}
