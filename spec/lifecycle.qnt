// Key objects and variables that refer to them (C06): which key does each object denote, after any history of
// deriving, converting, parsing into and zeroing.
module lifecycle {
  import terms.* from "./terms"
  const XV: Set[int]       // variables holding extended keys
  const SV: Set[int]       // variables holding signature keys (one object each)
  const SEEDS: Set[int]
  const NUMS: Set[int]     // child numbers
  const HARD: int         // first hardened child number
  const DEEP: int          // longest derivation

  var heap: int -> Key     // object -> key it denotes
  var slot: int -> int     // variable -> object
  var sigs: int -> Key     // signature key objects
  var ok: bool             // did the last call succeed
  var frame: Set[int]      // objects the last call was allowed to change
  var before: int -> Key   // heap before the last call

  def obj(i: int): Key = heap.get(slot.get(i))
  def fresh: int = 0.to(XV.size()).filter(o => not(heap.keys().contains(o))).fold(99, (a, o) => if (o < a) o else a)
  pure def reachable(h: int -> Key, s: int -> int): int -> Key = s.keys().map(i => s.get(i)).mapBy(o => h.get(o))

  action keep(good: bool): bool = all { heap' = heap, slot' = slot, sigs' = sigs, ok' = good, frame' = Set(), before' = heap }
  // variable j refers to a new object denoting k
  action make(j: int, k: Key): bool = all {
    heap' = reachable(heap.put(fresh, k), slot.set(j, fresh)), slot' = slot.set(j, fresh),
    sigs' = sigs, ok' = true, frame' = Set(), before' = heap }
  // the object of variable j now denotes k
  action assignObj(j: int, k: Key, good: bool): bool = all {
    heap' = heap.set(slot.get(j), k), slot' = slot, sigs' = sigs, ok' = good, frame' = Set(slot.get(j)), before' = heap }
  action setSig(s: int, k: Key): bool = all {
    sigs' = sigs.set(s, k), heap' = heap, slot' = slot, ok' = true, frame' = Set(), before' = heap }
  action makeOr(good: bool, j: int, k: Key): bool = if (good) make(j, k) else keep(false)

  action init = all {
    heap' = XV.mapBy(i => ZERO), slot' = XV.mapBy(i => i), sigs' = SV.mapBy(s => ZERO),
    ok' = true, frame' = Set(), before' = XV.mapBy(i => ZERO) }

  action Master = { nondet i = XV.oneOf() nondet s = SEEDS.oneOf() make(i, master(s)) }
  action Child = { nondet i = XV.oneOf() nondet j = XV.oneOf() nondet n = NUMS.oneOf()
    all { obj(i).st != 2, obj(i).path.length() < DEEP, makeOr(childOk(obj(i), n, HARD), j, child(obj(i), n)) } }
  action Hard = { nondet i = XV.oneOf() nondet j = XV.oneOf() nondet n = NUMS.oneOf()
    all { obj(i).st != 2, obj(i).path.length() < DEEP, makeOr(hardOk(obj(i), n, HARD), j, child(obj(i), n + HARD)) } }
  // two more path elements at once
  action Derive = { nondet i = XV.oneOf() nondet j = XV.oneOf() nondet n = NUMS.oneOf() nondet m = NUMS.oneOf()
    all { isKey(obj(i)), obj(i).path.length() + 1 < DEEP,
          makeOr(childOk(obj(i), n, HARD) and childOk(obj(i), m, HARD), j, child(child(obj(i), n), m)) } }
  // a public key's Public is the key itself, the same object; otherwise a new object
  action Pub = { nondet i = XV.oneOf() nondet j = XV.oneOf()
    all { isKey(obj(i)),
      if (obj(i).priv) make(j, neuter(obj(i)))
      else all { slot' = slot.set(j, slot.get(i)), heap' = reachable(heap, slot.set(j, slot.get(i))), sigs' = sigs,
                 ok' = true, frame' = Set(), before' = heap } } }
  // a new object out of the parts of another one
  action Raw = { nondet i = XV.oneOf() nondet j = XV.oneOf() all { isKey(obj(i)), make(j, obj(i)) } }
  // reading conversions: public key bytes (remembered by the object), curve keys, texts
  action Look = { nondet i = XV.oneOf() all { isKey(obj(i)), keep(true) } }
  action Zero = { nondet j = XV.oneOf() assignObj(j, ZERO, true) }
  action ParseInto = { nondet i = XV.oneOf() nondet j = XV.oneOf() all { isKey(obj(i)), assignObj(j, obj(i), true) } }
  action ParseBad = { nondet j = XV.oneOf() nondet n = Set(0, 1, 2, 3, 4).oneOf() assignObj(j, UNDEF, false) }
  action ToSig = { nondet i = XV.oneOf() nondet s = SV.oneOf() all { isKey(obj(i)), setSig(s, obj(i)) } }
  action SPub = { nondet i = XV.oneOf() nondet s = SV.oneOf() all { isKey(obj(i)), setSig(s, neuter(obj(i))) } }
  action SPriv = { nondet i = XV.oneOf() nondet s = SV.oneOf()
    all { isKey(obj(i)), if (obj(i).priv) setSig(s, obj(i)) else keep(false) } }
  action FromSigNew = { nondet s = SV.oneOf() nondet j = XV.oneOf() makeOr(isKey(sigs.get(s)), j, sigs.get(s)) }
  action FromSigInto = { nondet s = SV.oneOf() nondet j = XV.oneOf()
    if (isKey(sigs.get(s))) assignObj(j, sigs.get(s), true) else assignObj(j, UNDEF, false) }
  action ZeroSig = { nondet s = SV.oneOf() setSig(s, ZERO) }
  // signature keys parsed from text, into the object that is there
  action SigParse = { nondet i = XV.oneOf() nondet s = SV.oneOf() all { isKey(obj(i)), setSig(s, obj(i)) } }

  action step = any { Master, Child, Hard, Derive, Pub, Raw, Look, Zero, ParseInto, ParseBad, ToSig, SPub, SPriv,
                      FromSigNew, FromSigInto, ZeroSig, SigParse }

  // ---- properties of the specification ---------------------------------------
  val refsOk = XV.forall(i => heap.keys().contains(slot.get(i)))
  // a call changes no object but the one it is about
  val frameOk = before.keys().intersect(heap.keys()).forall(o => frame.contains(o) or heap.get(o) == before.get(o))
  val valuesOk = heap.keys().forall(o => heap.get(o).st == 1 or heap.get(o) == ZERO or heap.get(o) == UNDEF)
  val failuresHarmless = not(ok) implies heap.keys().forall(o => or { frame.contains(o), heap.get(o) == before.get(o) })
  val inv = refsOk and frameOk and valuesOk and failuresHarmless
}
module lifecycle_full {
  import lifecycle(XV = 0.to(4), SV = 0.to(1), SEEDS = 0.to(3), NUMS = Set(0, 1, 2, 5, 2147483647, 2147483648, 2147483649, 4294967295), HARD = 2147483648, DEEP = 5).*
}
module lifecycle_small {
  import lifecycle(XV = 0.to(1), SV = Set(0), SEEDS = Set(0), NUMS = Set(1, 5), HARD = 4, DEEP = 1).*
}
