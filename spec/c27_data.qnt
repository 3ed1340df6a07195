// C27: the built-in data sets, one table per step.
module c27_data {
  import linalg.* from "./linalg"
  import tables.* from "./tables"
  export linalg.*
  export tables.*
  var k: int
  pure val N = 133
  action init27 = all { k' = 0, ev' = NOEV }
  action step27 = all {
    k' = k + 1,
    if (k >= N) ev' = mk("done", [], [], [])
    else { val t = table(k) ev' = mk("table", [k * ONE], t.concat([400 * ONE]), lmap(t, x => x / 2^23 + 2^6).concat([0])) }
  }
  pure def at(t, nm) = t[nm - 380]
  // facts about the published tables that do not come from the code
  pure val KNOWN = and {
    entry(1, 555 - 380) == ONE, entry(1, 500 - 380) == dec(323, 3), entry(1, 600 - 380) == dec(631, 3), entry(0, 600 - 380) == dec(10622, 4),
    entry(2, 440 - 380) == dec(174706, 5), entry(0, 450 - 380) == dec(3362, 4), entry(1, 650 - 380) == dec(107, 3),
    entry(9, 560 - 380) == 100 * ONE, entry(9, 460 - 380) == dec(117812, 3), entry(9, 400 - 380) == dec(827549, 4), entry(9, 700 - 380) == dec(716091, 4),
    entry(9, 380 - 380) == dec(499755, 4), entry(9, 500 - 380) == dec(109354, 3), entry(9, 600 - 380) == dec(900062, 4) }
  val laws = and { KNOWN, k <= 200 }
}
