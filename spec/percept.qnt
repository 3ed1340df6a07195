// OKLab and ICtCp over the reals.  Every stage carries a value and a bound on the
// error a float32 evaluation may have accumulated there.
module percept {
  import otf.* from "./otf"
  export otf.*

  type I3 = { v: List[int], d: List[int] }
  pure def exact(x: List[int]): I3 = { v: x, d: [0, 0, 0] }
  // matrix with entry errors me applied to x; k roundings per dot product
  pure def app(m: List[int], me: List[int], k: int, x: I3): I3 = {
    val am = lmap(m, t => iabs(t))
    val ax = lmap(x.v, t => iabs(t))
    val p = mapply(am, x.d)
    val q = mapply(me, ax)
    val r = mapply(am, ax)
    { v: mapply(m, x.v), d: [p[0] + q[0] + ulps(k, r[0]), p[1] + q[1] + ulps(k, r[1]), p[2] + q[2] + ulps(k, r[2])] }
  }
  // entries of a decimal matrix are rounded to float32
  pure def ent(m: List[int]): List[int] = lmap(m, t => iabs(t) / 2^24)
  // error of inverting a float32 matrix by cofactors
  pure def invErr(m: List[int]): List[int] = {
    val d = iabs(det3raw(m))
    val c = aadj3(m)
    val p = adet3(m) * ONE * ONE
    val n = minv(m)
    range(0, 9).foldl([], (l, i) => l.append((c[i] * ONE * ONE / d + fmul(iabs(n[i]), p * ONE / d)) * 8 / 2^24)) }
  pure def each(x: I3, f: (int, int) => int, e: (int, int) => int): I3 =
    { v: [f(x.v[0], x.d[0]), f(x.v[1], x.d[1]), f(x.v[2], x.d[2])], d: [e(x.v[0], x.d[0]), e(x.v[1], x.d[1]), e(x.v[2], x.d[2])] }

  // ---- OKLab (published constants, 10 decimals) -----------------------------------
  pure val OK1: List[int] = [dec(8189330101, 10), dec(3618667424, 10), dec(-1288597137, 10), dec(329845436, 10), dec(9293118715, 10),
                  dec(361456387, 10), dec(482003018, 10), dec(2643662691, 10), dec(6338517070, 10)]
  pure val OK2: List[int] = [dec(2104542553, 10), dec(7936177850, 10), dec(-40720468, 10), dec(19779984951, 10), dec(-24285922050, 10),
                  dec(4505937099, 10), dec(259040371, 10), dec(7827717662, 10), dec(-8086757660, 10)]
  pure val OK1I: List[int] = minv(OK1)
  pure val OK2I: List[int] = minv(OK2)
  pure val OK1E: List[int] = ent(OK1)
  pure val OK2E: List[int] = ent(OK2)
  pure val OK1IE: List[int] = invErr(OK1)
  pure val OK2IE: List[int] = invErr(OK2)
  pure def okFwd(x: I3): I3 = {
    val lms = app(OK1, OK1E, 5, x)
    val dash = each(lms, (v, d) => fcbrt(v),
      (v, d) => imax(fcbrt(v + d) - fcbrt(v), fcbrt(v) - fcbrt(v - d)) + ulps(3, iabs(fcbrt(v))))
    app(OK2, OK2E, 5, dash) }
  pure def okInv(x: I3): I3 = {
    val dash = app(OK2I, OK2IE, 5, x)
    val lms = each(dash, (v, d) => fmul(fsq(v), v),
      (v, d) => fmul(3 * fsq(iabs(v) + d), d) + ulps(5, fmul(fsq(v), iabs(v))))
    app(OK1I, OK1IE, 5, lms) }

  // ---- ICtCp (Dolby white paper, BT.2100 PQ) ----------------------------------------
  pure val HPE: List[int] = [dec(3592, 4), dec(6976, 4), dec(-358, 4), dec(-1922, 4), dec(11004, 4), dec(755, 4), dec(70, 4), dec(749, 4), dec(8434, 4)]
  pure val HPEI: List[int] = minv(HPE)
  pure val HPEE: List[int] = ent(HPE)
  pure val HPEIE: List[int] = invErr(HPE)
  pure val ICT: List[int] = [HALF, HALF, 0, rat(6610, 4096), rat(-13613, 4096), rat(7003, 4096), rat(17933, 4096), rat(-17390, 4096), rat(-543, 4096)]
  pure val ICTI: List[int] = minv(ICT)
  // the inverse is published to six decimals
  pure val ICTIE: List[int] = [0, ONE / 2000000, ONE / 2000000, 0, ONE / 2000000, ONE / 2000000, 0, ONE / 2000000, ONE / 2000000]
  pure def zero9: List[int] = [0, 0, 0, 0, 0, 0, 0, 0, 0]
  pure def icCone(x: I3): I3 = app(HPE, HPEE, 5, x)
  pure def icPq(lms: I3): I3 =
    each(lms, (v, d) => pqEnc(v), (v, d) => if (v + d <= 0) 0 else pqEnc(v + d) - pqEnc(v - d) + ulps(440, pqEnc(v + d)))
  pure def icSig(pq: I3): I3 = app(ICT, zero9, 5, pq)
  pure def icGis(x: I3): I3 = app(ICTI, ICTIE, 5, x)
  pure def icLin(pq: I3): I3 = each(pq, (v, d) => pqDec(v),
      (v, d) => imax(pqDec(v + d) - pqDec(v), pqDec(v) - pqDec(imax(0, v - d))) + (if (v + d <= 0) 0 else T(5, v + d, ONE)))
  pure def icEnoc(lms: I3): I3 = app(HPEI, HPEIE, 5, lms)
  pure def icFwd(x: I3): I3 = icSig(icPq(icCone(x)))
  pure def icInv(x: I3): I3 = icEnoc(icLin(icGis(x)))
  // out and back: an error made before the linear map passes through unchanged,
  // only the map's own rounding is amplified by its inverse
  pure def plus(x: I3, e: List[int]): I3 = { v: x.v, d: lmap2(x.d, e, (a, b) => a + b) }
  pure def icRound(x: I3): I3 = {
    val pq = icPq(icCone(x))
    icEnoc(icLin(plus(pq, icGis(icSig(exact(pq.v))).d))) }
  pure def icDnuor(x: I3): I3 = {
    val lms = icLin(icGis(x))
    icSig(icPq(plus(lms, icCone(icEnoc(exact(lms.v))).d))) }
  pure def cones(xyz: List[int]): List[int] = mapply(HPE, xyz)
}
