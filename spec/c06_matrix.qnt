// C06: the calls of Matrix3 and Vector3, with their exact results.
module c06_matrix {
  import linalg.* from "./linalg"
  export linalg.*
  // two matrices, either with structure
  pure def pair(w: int, a: List[int]): List[int] = structured(w / 2^25, structured(w, a, 0), 9)

  action doMul = {
    nondet r = 0.to(drawBits(18)).oneOf()
    val a = pair(r / 2^(SLOT * 18 + 24 + 90), drawV(r, 18, 9, prev, w => gW(w)))
    val x = a.slice(0, 9)
    val y = a.slice(9, 18)
    emit(mk("mat_mul", a, mmul(x, y), lmap(mamul(x, y), s => ulps(4, s))))
  }
  action doApply = {
    nondet r = 0.to(drawBits(12)).oneOf()
    val a = structured(r / 2^(SLOT * 12 + 24 + 60), drawV(r, 12, 9, prev, w => gW(w)), 0)
    val m = a.slice(0, 9)
    val v = a.slice(9, 12)
    emit(mk("mat_apply", a, mapply(m, v), lmap(maapply(m, v), s => ulps(4, s))))
  }
  // applying a product is applying its factors in sequence
  action doApply2 = {
    nondet r = 0.to(drawBits(21)).oneOf()
    val a = pair(r / 2^(SLOT * 21 + 24 + 105), drawV(r, 21, 9, prev, w => gW(w)))
    val m = a.slice(0, 9)
    val n = a.slice(9, 18)
    val v = a.slice(18, 21)
    val av = lmap(v, x => iabs(x))
    val scale = maapply(m, maapply(n, av))
    val e = mapply(m, mapply(n, v))
    emit(mk("mat_apply2", a, e.concat(e), lmap(scale.concat(scale), s => ulps(8, s))))
  }
  action doDet = {
    nondet r = 0.to(drawBits(9)).oneOf()
    val a = structured(r / 2^(SLOT * 9 + 24 + 45), drawV(r, 9, 9, prev, w => gW(w)), 0)
    emit(mk("mat_det", a, [det3(a)], [ulps(10, adet3(a))]))
  }
  action doDetMul = {
    nondet r = 0.to(drawBits(18)).oneOf()
    val a = pair(r / 2^(SLOT * 18 + 24 + 90), drawS(r, 18, prev, w => gW(w)))
    val x = a.slice(0, 9)
    val y = a.slice(9, 18)
    // det(xy) = det(x) det(y): the scale is the permanent of |x||y|
    emit(mk("mat_detmul", a, [fmul(det3(x), det3(y))], [ulps(24, adet3(mamul(x, y)))]))
  }
  action doTrans = {
    nondet r = 0.to(drawBits(9)).oneOf()
    val a = structured(r / 2^(SLOT * 9 + 24 + 45), drawV(r, 9, 9, prev, w => gW(w)), 0)
    emit(mk("mat_trans", a, mtrans(a), lmap(a, x => 0)))
  }
  action doTransMul = {
    nondet r = 0.to(drawBits(18)).oneOf()
    val a = pair(r / 2^(SLOT * 18 + 24 + 90), drawV(r, 18, 9, prev, w => gW(w)))
    val x = a.slice(0, 9)
    val y = a.slice(9, 18)
    // transpose(y) * transpose(x) = transpose(x * y)
    emit(mk("mat_transmul", a, mtrans(mmul(x, y)), lmap(mtrans(mamul(x, y)), s => ulps(4, s))))
  }
  action doAdd = {
    nondet r = 0.to(drawBits(18)).oneOf()
    val a = pair(r / 2^(SLOT * 18 + 24 + 90), drawV(r, 18, 9, prev, w => gW(w)))
    val e = madd(a.slice(0, 9), a.slice(9, 18))
    emit(mk("mat_add", a, e, lmap(e, s => ulps(2, iabs(s)))))
  }
  action doScale = {
    nondet r = 0.to(drawBits(10)).oneOf()
    val a = structured(r / 2^(SLOT * 10 + 24 + 50), drawV(r, 10, 9, prev, w => gW(w)), 0)
    val e = mscale(a.slice(0, 9), a[9])
    emit(mk("mat_scale", a, e, lmap(e, s => ulps(2, iabs(s)))))
  }
  action doDiv = {
    nondet r = 0.to(drawBits(10)).oneOf()
    val a0 = drawV(r, 10, 9, prev, w => gW(w))
    val a = if (a0[9] == 0) a0.replaceAt(9, -3 * ONE) else a0
    val e = lmap(a.slice(0, 9), x => fdiv(x, a[9]))
    emit(mk("mat_div", a, e, lmap(e, s => ulps(3, iabs(s)))))
  }
  action doDiag = {
    nondet r = 0.to(drawBits(3)).oneOf()
    val a = drawV(r, 3, 9, prev, w => gW(w))
    emit(mk("mat_diag", a, [a[0], 0, 0, 0, a[1], 0, 0, 0, a[2]], lmap(MID, x => 0)))
  }
  action doRowCol = {
    nondet r = 0.to(drawBits(9)).oneOf()
    val a = structured(r / 2^(SLOT * 9 + 24 + 45), drawV(r, 9, 9, prev, w => gW(w)), 0)
    val e = a.concat(mtrans(a)).concat(a).concat(a).append(9 * ONE)
    emit(mk("mat_rowcol", a, e, lmap(e, x => 0)))
  }
  action doDot = {
    nondet r = 0.to(drawBits(6)).oneOf()
    val a = drawV(r, 6, 3, prev, w => gW(w))
    val x = a.slice(0, 3)
    val y = a.slice(3, 6)
    emit(mk("vec_dot", a, [dotp(x, y)], [ulps(4, adotp(x, y))]))
  }
  action doVec = {
    nondet r = 0.to(drawBits(3)).oneOf()
    val a = drawV(r, 3, 9, prev, w => gW(w))
    val e = a.concat(a).concat(a).append(3 * ONE).concat(MID)
    emit(mk("vec_get", a, e, lmap(e, x => 0)))
  }
  action step = any { doMul, doApply, doApply2, doDet, doDetMul, doTrans, doTransMul,
                      doAdd, doScale, doDiv, doDiag, doRowCol, doDot, doVec }

  // laws of the specification itself, at every step
  pure def close(a, b, s) = iabs(a - b) <= 2^30 + s / 2^60
  val laws = and {
    ev.op == "mat_apply2" implies {
      val v = ev.a.slice(18, 21)
      val d = mapply(mmul(ev.a.slice(0, 9), ev.a.slice(9, 18)), v)
      close(d[0], ev.e[0], ev.t[0] * 2^24) and close(d[1], ev.e[1], ev.t[1] * 2^24)
        and close(d[2], ev.e[2], ev.t[2] * 2^24)
    },
    ev.op == "mat_detmul" implies
      close(det3(mmul(ev.a.slice(0, 9), ev.a.slice(9, 18))), ev.e[0], ev.t[0] * 2^24),
    ev.op == "mat_trans" implies mtrans(ev.e) == ev.a and det3(ev.e) == det3(ev.a),
    ev.op == "mat_transmul" implies
      mtrans(ev.e) == mmul(ev.a.slice(0, 9), ev.a.slice(9, 18)),
    ev.a.select(x => not(isF32(x))).length() == 0
  }
}
