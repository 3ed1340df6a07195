// C16: OTF::toScreen / toScene on whole triples.
// Types in the order of OTF::TYPE: LINEAR, GAMMA, SRGB, BT709, ST2084, SLOG, SLOG2, SLOG3, HLG.
module c16_conv {
  import c14_points.* from "./c14_points"
  export c14_points.*

  pure val CURVE = [-1, 14, 0, 2, 4, 6, 8, 10, 12]
  pure val WILDG = [0, -ONE, -2 * ONE, 2^(PB + 60), -(2^(PB + 100)), ONE / 2^60, INF, -INF]
  pure def cid(dir, ty) = CURVE[ty] + dir
  // a whole power is defined for negative numbers too
  pure def whole(dir, g) = g == ONE or (if (dir == 1) g == 2 * ONE or g == 3 * ONE else g == ONE / 2)
  pure def odd(dir, g) = g == ONE or g == 3 * ONE
  pure def chan(dir, ty, g, x) = if (ty == 0) x
    else if (ty == 1 and x < 0) (if (odd(dir, g)) -1 else 1) * F(cid(dir, ty), -x, g) else F(cid(dir, ty), x, g)
  pure def ctol(dir, ty, g, x) = if (ty == 0) 0 else if (ty == 1 and x < 0) TP(cid(dir, ty), -x, g) else TP(cid(dir, ty), x, g)
  pure def signs(dir: int, ty: int, g: int, w: int, x: List[int]): List[int] = if (ty == 1 and whole(dir, g) and w % 4 == 0) lmap3(x, w / 4) else x
  pure def lmap3(x: List[int], w: int): List[int] = [if (w % 2 == 0) -x[0] else x[0], if (w / 2 % 2 == 0) -x[1] else x[1], if (w / 4 % 2 == 0) -x[2] else x[2]]
  pure def input(dir, ty, r) =
    if (ty == 0) { if (r % 2 == 0) inside(14, r / 2) else -inside(14, r / 2) }
    else toF32(if (r % 16 == 0) outside(cid(dir, ty), r / 16) else imax(0, inside(cid(dir, ty), r / 16)))
  pure def triple(dir, ty, g, x) = ([chan(dir, ty, g, x[0]), chan(dir, ty, g, x[1]), chan(dir, ty, g, x[2])],
                                    [ctol(dir, ty, g, x[0]), ctol(dir, ty, g, x[1]), ctol(dir, ty, g, x[2])])
  action call(dir, ty, g, x) = {
    val y = triple(dir, ty, g, x)
    emit(mk("conv", [dir * ONE, ty * ONE, g, x[0], x[1], x[2]], y._1, y._2))
  }
  action fresh = {
    nondet r = 0.to(2^290 - 1).oneOf()
    val dir = r % 2
    val ty = r / 2 % 9
    // only GAMMA looks at the exponent: the others take any
    val g = if (ty != 1 and r / 2^230 % 3 == 0) WILDG[r / 2^232 % 8] else GS[r / 32 % 8]
    val byDefault = r / 256 % 4 == 0
    val x0 = signs(dir, ty, if (byDefault) ONE else g, r / 2^236 % 64, [input(dir, ty, r / 2^10 % 2^72), input(dir, ty, r / 2^82 % 2^72), input(dir, ty, r / 2^154 % 2^72)])
    val x = if (r / 2^226 % 8 == 0) [x0[0], x0[0], x0[0]] else if (r / 2^226 % 8 == 1) [x0[0], x0[1], x0[0]] else x0      // greys and equal channels
    if (byDefault) {
      val y = triple(dir, ty, ONE, x)
      emit(mk("conv_default", [dir * ONE, ty * ONE, x[0], x[1], x[2]], y._1, y._2))
    } else {
      // any exponent, if it suits all three channels
      val h = gFor(14, r / 2^244, imax(x[0], 0))
      val ok = ty == 1 and Set(0, 1, 2).forall(i => x[i] >= 0 and (x[i] == 0 or imax(fmul(alog(x[i]), h), fdiv(alog(x[i]), h)) < 20 * ONE))
      call(dir, ty, if (ok) h else g, x)
    }
  }
  // the previous call with channels permuted, or with another exponent, or (where the
  // triple is in every domain) another type or the opposite direction
  action again = all {
    ev.a.length() == 6,
    nondet r = 0.to(2^16 - 1).oneOf()
    val p = ev.a
    val k = r % 4
    val q = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][r / 4 % 6]
    val x = [p[3 + q[0]], p[3 + q[1]], p[3 + q[2]]]
    val unit = Set(0, 1, 2).forall(i => x[i] >= 2^(96 - 12) and x[i] <= ONE)
    val dir = p[0] / ONE
    val ty = p[1] / ONE
    if (k == 0 or not(unit)) call(dir, ty, p[2], x)
    else if (k == 1) call(dir, ty, GS[r / 32 % 8], x)
    else if (k == 2) call(dir, r / 256 % 9, if (not(GS.indices().exists(i => GS[i] == p[2]))) GS[r / 32 % 8] else p[2], x)
    else call(1 - dir, r / 256 % 9, if (not(GS.indices().exists(i => GS[i] == p[2]))) GS[r / 32 % 8] else p[2], x)
  }
  action step16 = any { fresh, again }
  val laws16 = ev.e.length() == ev.t.length()
}
