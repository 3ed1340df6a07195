// C30: purity.  A call is a function of the API and a variant of its arguments (0: the base arguments, i: component i
// differs, then permutations and mixtures, then component i hardly differs, all dim, bright or zero, then component i zero, negated or small).  The state is the history: which calls have been made, what every call
// returned (`memo`), what was printed.  A pure library is one in which a call returns the same value in every history,
// changes none of its arguments and prints nothing: the replayer reports the number of calls that returned something
// else than the same call in a process without history, of changed arguments, and of bytes printed; the specification
// says zero for each.
module c30_pure {
  import linalg.* from "./linalg"
  export linalg.*
  pure val NF = 96                                // the replayer takes function and variant modulo what there is
  pure val NV = 189
  var memo: int -> int                            // call -> value (abstract: the call's own number), of the latest batch
  var made: int                                   // calls made
  var printed: int
  var turn: int                                   // functions and variants are visited in turn

  pure def idOf(f: int, v: int): int = f * 256 + v
  pure def call(f: int, v: int): List[int] = [f * ONE, v * ONE]
  // the transition: threads nt, each making the calls cs, rep times
  action batch(nt: int, rep: int, cs: List[(int, int)]): bool = all {
    memo' = cs.foldl(Map(), (m, c) => m.put(idOf(c._1, c._2), idOf(c._1, c._2))),
    made' = made + nt * rep * cs.length(),
    printed' = printed,
    turn' = turn + 1,
    ev' = mk("batch", [nt * ONE, rep * ONE].concat(cs.foldl([], (l, c) => l.concat(call(c._1, c._2)))), [0, 0, 0, 0], [0, 0, 0, -1])
  }
  // every variant right after and right before the base call, of every function
  action neighbours = {
    val f = turn % NF
    batch(1, 2, range(0, NV).foldl([], (l, v) => l.concat([(f, 0), (f, v)])))
  }
  // every variant after every other one, of every function
  action sequences = {
    nondet r = 0.to(2^60 - 1).oneOf()
    val f = turn % NF
    batch(1, 1 + r % 3, range(0, 24).foldl([], (l, i) => l.append((f, (r / 2^(i % 12 * 5) + 11 * i) % NV))))
  }
  // calls of different functions mixed
  action mixed = {
    nondet r = 0.to(2^200 - 1).oneOf()
    batch(1, 1 + r % 4, range(0, 12).foldl([], (l, i) => l.append((r / 2^(4 + 12 * i) % NF, r / 2^(10 + 12 * i) % NV))))
  }
  // long histories of one call
  action often = {
    nondet r = 0.to(2^40 - 1).oneOf()
    batch(1, 70000, [(turn % NF, r % NV)])
  }
  // threads on the same function with different arguments, and on different functions
  action contend = {
    nondet r = 0.to(2^60 - 1).oneOf()
    val f = turn % NF
    batch(2 + r % 7, 40 + r / 8 % 100, [(f, 0), (f, r / 2^10 % NV), (f, r / 2^20 % NV)])
  }
  action crowd = {
    nondet r = 0.to(2^200 - 1).oneOf()
    batch(2 + r % 7, 10 + r / 8 % 30, range(0, 8).foldl([], (l, i) => l.append((r / 2^(14 + 12 * i) % NF, r / 2^(20 + 12 * i) % NV))))
  }
  // histories in processes of their own: every variant is once the very first call ever made
  action histories(len: int, cs: List[(int, int)]): bool = all {
    memo' = cs.foldl(Map(), (m, c) => m.put(idOf(c._1, c._2), idOf(c._1, c._2))),
    made' = made + cs.length(),
    printed' = printed,
    turn' = turn + 1,
    ev' = mk("fresh", [len * ONE].concat(cs.foldl([], (l, c) => l.concat(call(c._1, c._2)))), [0, 0, 0, 0], [0, 0, 0, -1])
  }
  action first = {
    nondet r = 0.to(2^60 - 1).oneOf()
    val f = turn % NF
    histories(6, range(0, NV).foldl([], (l, v) => l.concat([(f, v), (f, 0), (f, (r + 7 * v) % NV), (f, (r / 2^10 + 11 * v) % NV), (f, (r / 2^20 + 13 * v) % NV), (f, v)])))
  }
  action firstMixed = {
    nondet r = 0.to(2^60 - 1).oneOf()
    val f = turn % NF
    histories(8, range(0, 16).foldl([], (l, i) => l.concat([(f, (r + 7 * i) % NV)]).concat(range(0, 7).foldl([], (k, j) => k.append(((r / 2^10 + 5 * i + 13 * j) % NF, (r / 2^(20 + 4 * j) + i) % NV))))))
  }
  action init30 = all { memo' = Map(), made' = 0, printed' = 0, turn' = 0, ev' = NOEV }
  action init31 = all { memo' = Map(), made' = 0, printed' = 0, turn' = NF / 2, ev' = NOEV }
  action stepNeighbours = neighbours
  action stepOften = often
  action stepOne = any { sequences, mixed, often }
  action stepFirst = any { first, firstMixed }
  action stepFirst1 = first
  action stepThreads = contend
  action stepCrowd = any { contend, crowd }
  val laws = and { printed == 0, memo.keys().forall(k => memo.get(k) == k) }
}
