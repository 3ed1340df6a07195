// C18: the built-in gamuts and illuminants.
module c18_named {
  import c17_gamut.* from "./c17_gamut"
  export c17_gamut.*
  action one = {
    nondet i = 0.to(9).oneOf()
    if (i == 8) emit(mk("named_matrix", [i * ONE], NAMED[i].to.v.concat(NAMED[i].fr.v), NAMED[i].to.d.concat(NAMED[i].fr.d)))
    else emit(describe("named_gamut", [i * ONE], NAMED[i]))
  }
  action illum = {
    nondet i = 0.to(11).oneOf()
    emit(mk("illuminant", [i * ONE], ill(i), [ulps(1, ill(i)[0]), 0, ulps(1, ill(i)[2])]))
  }
  action step18 = any { one, illum }
  val laws18 = ev.op != "named_gamut" or ev.t.foldl(true, (b, t) => b and t < ONE / 2000)
}
