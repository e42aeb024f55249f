// Goroutines calling functions on shared objects without modifying them (C21): every call, however it overlaps
// with others, yields what it would yield alone, and the shared objects stay what they are.
module concurrent {
  import terms.* from "./terms"
  const W: Set[int]          // goroutines
  const KEYS: Set[int]       // names of shared ck
  const SETS: Set[int]       // names of shared bitsets
  const NUMS: Set[int]       // child numbers
  const HARD: int
  const UNIV: Set[int]       // elements of bitsets
  const PLAIN: int           // kinds of call without shared objects

  type Res = { ok: bool, key: Key, elems: Set[int], flag: bool }
  type Call = { op: str, o: int, p: int, n: int }
  type Run = { on: bool, call: Call, res: Res }
  pure val NORES: Res = { ok: true, key: ZERO, elems: Set(), flag: true }
  pure val IDLE: Run = { on: false, call: { op: "", o: 0, p: 0, n: 0 }, res: NORES }

  var ck: int -> Key
  var cs: int -> Set[int]
  var job: int -> Run
  var ck0: int -> Key      // as they were at first
  var cs0: int -> Set[int]
  var seen: List[(Call, Res)]   // the call that has just finished, with its result

  pure def setNo(i: int, u: Set[int]): Set[int] =
    u.filter(e => if (i == 0) e % 11 == 1 else if (i == 1) e % 2 == 1 and e % 9 < 2 else if (i == 2) e % 22 == 1 else e == 0 or e == 64 or e > 250)
  pure def keyNo(i: int, nums: Set[int], a: int, b: int): Key =
    { st: 1, seed: i % 2, path: if (i < 2) [] else [a, b], priv: i % 2 == 0 }

  // what the call yields when nothing else runs
  pure def keyIf(good: bool, k: Key): Res = if (good) { ...NORES, key: k } else { ...NORES, ok: false }
  // read as numbers: the largest element not in common decides
  pure def top(s: Set[int]): int = s.fold(-1, (acc, i) => if (i > acc) i else acc)
  pure def less(a: Set[int], b: Set[int]): bool = top(a.exclude(b)) < top(b.exclude(a))
  def alone(c: Call): Res =
    if (c.op == "child") keyIf(childOk(ck.get(c.o), c.n, HARD), child(ck.get(c.o), c.n))
    else if (c.op == "hard") keyIf(hardOk(ck.get(c.o), c.n, HARD), child(ck.get(c.o), c.n + HARD))
    else if (c.op == "public" or c.op == "spub") keyIf(true, neuter(ck.get(c.o)))
    else if (c.op == "spriv") keyIf(ck.get(c.o).priv, ck.get(c.o))
    else if (c.op == "text" or c.op == "tosig") keyIf(true, ck.get(c.o))
    // a signature made with key o, checked with the public key of p
    else if (c.op == "sign") (if (ck.get(c.o).priv) { ...NORES, flag: neuter(ck.get(c.o)) == neuter(ck.get(c.p)) } else { ...NORES, ok: false })
    else if (c.op == "inter") { ...NORES, elems: cs.get(c.o).intersect(cs.get(c.p)) }
    else if (c.op == "union") { ...NORES, elems: cs.get(c.o).union(cs.get(c.p)) }
    else if (c.op == "clone") { ...NORES, elems: cs.get(c.o) }
    else if (c.op == "equal") { ...NORES, flag: cs.get(c.o) == cs.get(c.p) }
    else if (c.op == "subset") { ...NORES, flag: cs.get(c.o).subseteq(cs.get(c.p)) }
    else if (c.op == "less") { ...NORES, flag: less(cs.get(c.o), cs.get(c.p)) }
    else NORES
  pure val KEYOPS = Set("child", "hard", "public", "spub", "spriv", "text", "tosig", "sign")
  pure val SETOPS = Set("inter", "union", "clone", "equal", "subset", "less")

  action init = {
    nondet a = NUMS.oneOf()
    nondet b = NUMS.oneOf()
    val ks = KEYS.mapBy(i => keyNo(i, NUMS, a % HARD, b % HARD))
    val ss = SETS.mapBy(i => setNo(i, UNIV))
    all { ck' = ks, cs' = ss, ck0' = ks, cs0' = ss, job' = W.mapBy(w => IDLE), seen' = [] }
  }
  action start(w: int, c: Call): bool = all {
    not(job.get(w).on),
    job' = job.set(w, { on: true, call: c, res: alone(c) }),
    ck' = ck, cs' = cs, ck0' = ck0, cs0' = cs0, seen' = [] }
  action OnKey = { nondet w = W.oneOf() nondet op = KEYOPS.oneOf() nondet o = KEYS.oneOf() nondet p = KEYS.oneOf() nondet n = NUMS.oneOf()
    start(w, { op: op, o: o, p: p, n: n }) }
  action OnSet = { nondet w = W.oneOf() nondet op = SETOPS.oneOf() nondet o = SETS.oneOf() nondet p = SETS.oneOf()
    start(w, { op: op, o: o, p: p, n: 0 }) }
  // calls of package functions on values of one's own
  action Plain = { nondet w = W.oneOf() nondet n = 0.to(PLAIN).oneOf() start(w, { op: "plain", o: 0, p: 0, n: n }) }
  action Finish = { nondet w = W.oneOf() all {
    job.get(w).on,
    seen' = [(job.get(w).call, job.get(w).res)],
    job' = job.set(w, IDLE), ck' = ck, cs' = cs, ck0' = ck0, cs0' = cs0 } }
  action step = any { OnKey, OnSet, Plain, Finish }

  val unchanged = ck == ck0 and cs == cs0
  // what a call yielded is what it yields alone now, however the calls overlapped
  val sequential = seen.indices().forall(i => seen[i]._2 == alone(seen[i]._1))
  val running = W.forall(w => job.get(w).on implies job.get(w).res == alone(job.get(w).call))
  val inv = unchanged and sequential and running
}
module concurrent_full {
  import concurrent(W = Set(0,1,2,3), KEYS = 0.to(3), SETS = 0.to(3), NUMS = Set(0, 1, 2, 5, 2147483647, 2147483648, 2147483649, 4294967295),
                    HARD = 2147483648, UNIV = 0.to(255), PLAIN = 15).*
}
module concurrent_small {
  import concurrent(W = 0.to(1), KEYS = 0.to(1), SETS = 0.to(1), NUMS = Set(1, 5), HARD = 4, UNIV = 0.to(2), PLAIN = 0).*
}
