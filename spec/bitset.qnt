// Mutable sets of small integers with shared references (C16, C17).
// heap: object -> contents; slot: variable of the caller -> object.
module bitset {
  import bytes.* from "./bytes"
  const MAXEL: int      // elements are 0 .. MAXEL
  const SLOTS: int

  type Obs = { op: str, a: int, b: int, e: int, eq: bool, sub: bool, less: bool, count: int, value: int, member: bool }
  pure val NOOBS: Obs = { op: "none", a: 0, b: 0, e: 0, eq: false, sub: false, less: false, count: 0, value: 0, member: false }

  var heap: int -> Set[int]
  var slot: int -> int
  var obs: Obs

  pure def number(s: Set[int]): int = s.fold(0, (acc, i) => acc + 2^i)
  // the 32-byte encoding is the number in which element e has this binary place: byte k of each of the four
  // 64-element groups, interleaved, least significant group last (the layout the package's own tests fix)
  pure def place(e: int): int = 8 * (((e % 64) / 8) * 4 + e / 64) + e % 8
  pure def code(s: Set[int]): int = s.fold(0, (acc, i) => acc + 2^place(i))
  def obj(i: int): Set[int] = heap.get(slot.get(i))
  // an unused object name; objects no variable refers to are forgotten
  def fresh: int = 0.to(SLOTS).filter(o => not(heap.keys().contains(o))).fold(SLOTS, (acc, o) => imin(acc, o))
  pure def reachable(h: int -> Set[int], s: int -> int): int -> Set[int] =
    s.keys().map(i => s.get(i)).mapBy(o => h.get(o))
  pure val ELEMS = 0.to(MAXEL).filter(e => true)
  pure val VARS = 0.to(SLOTS - 1)

  // what looking at variables a and b (and element e) must show
  pure def look(x: Set[int], y: Set[int], a: int, b: int, e: int): Obs = {
    op: "look", a: a, b: b, e: e, eq: x == y, sub: x.subseteq(y), less: number(x) < number(y),
    count: x.size(), value: code(x), member: x.contains(e) }

  // move to the given heap and variables, and look at some pair of variables there
  action move(h: int -> Set[int], s: int -> int): bool = {
    nondet a = VARS.oneOf()
    nondet b = VARS.oneOf()
    nondet e = ELEMS.oneOf()
    all { heap' = reachable(h, s), slot' = s, obs' = look(h.get(s.get(a)), h.get(s.get(b)), a, b, e) }
  }
  // variable i now refers to a new object with contents s
  action make(i: int, s: Set[int]): bool = move(heap.put(fresh, s), slot.set(i, fresh))
  // the object of variable i gets contents s; variable j gets the returned reference (the receiver itself)
  action mutate(i: int, j: int, s: Set[int]): bool = move(heap.set(slot.get(i), s), slot.set(j, slot.get(i)))

  action init = all {
    heap' = VARS.mapBy(i => Set()),
    slot' = VARS.mapBy(i => i),
    obs' = NOOBS,
  }
  pure def toggle(s: Set[int], e: int): Set[int] = if (s.contains(e)) s.exclude(Set(e)) else s.union(Set(e))
  pure def xor(s: Set[int], t: Set[int]): Set[int] = s.union(t).exclude(s.intersect(t))

  action New = { nondet i = VARS.oneOf() nondet s = ELEMS.powerset().oneOf() make(i, s) }
  // (a filtered set: the simulator misjudges inclusion of empty intervals kept as values)
  pure def between(x: int, y: int): Set[int] = ELEMS.filter(e => e >= x and e <= y)
  // New with an interval of elements, and with another variable's elements up to a small difference
  action NewRange = { nondet i = VARS.oneOf() nondet x = ELEMS.oneOf() nondet y = ELEMS.oneOf() make(i, between(x, y)) }
  action NewNear = { nondet i = VARS.oneOf() nondet j = VARS.oneOf() nondet x = ELEMS.oneOf() nondet w = 0.to(3).oneOf()
    make(j, xor(obj(i), between(x, imin(x + w, MAXEL)))) }
  action SetEl = { nondet i = VARS.oneOf() nondet j = VARS.oneOf() nondet x = ELEMS.oneOf() mutate(i, j, obj(i).union(Set(x))) }
  action ClearEl = { nondet i = VARS.oneOf() nondet j = VARS.oneOf() nondet x = ELEMS.oneOf() mutate(i, j, obj(i).exclude(Set(x))) }
  action ToggleEl = { nondet i = VARS.oneOf() nondet j = VARS.oneOf() nondet x = ELEMS.oneOf() mutate(i, j, toggle(obj(i), x)) }
  action Clone = { nondet i = VARS.oneOf() nondet j = VARS.oneOf() make(j, obj(i)) }
  action Inter = { nondet i = VARS.oneOf() nondet j = VARS.oneOf() nondet k = VARS.oneOf() make(k, obj(i).intersect(obj(j))) }
  action Union = { nondet i = VARS.oneOf() nondet j = VARS.oneOf() nondet k = VARS.oneOf() make(k, obj(i).union(obj(j))) }
  action ViaBytes = { nondet i = VARS.oneOf() nondet j = VARS.oneOf() make(j, obj(i)) }
  action ViaHex = { nondet i = VARS.oneOf() nondet j = VARS.oneOf() make(j, obj(i)) }
  action step = any { New, NewRange, NewNear, SetEl, ClearEl, ToggleEl, Clone, Inter, Union, ViaBytes, ViaHex }

  // ---- properties of the specification --------------------------------------
  // every variable refers to a live object, and the order is a strict total order refining inclusion
  val refsOk = VARS.forall(i => heap.keys().contains(slot.get(i)))
  val contentsOk = heap.keys().forall(o => heap.get(o).subseteq(ELEMS))
  val orderOk = VARS.forall(i => VARS.forall(j => and {
    (obj(i) == obj(j)) == (number(obj(i)) == number(obj(j))),
    obj(i).subseteq(obj(j)) implies number(obj(i)) <= number(obj(j)),
    obj(i).subseteq(obj(j)) == (obj(i).intersect(obj(j)) == obj(i)),
  }))
  pure val placesOk = ELEMS.forall(x => ELEMS.forall(y => place(x) == place(y) implies x == y)) and ELEMS.map(e => place(e)) == ELEMS
  val codeOk = VARS.forall(i => VARS.forall(j => (obj(i) == obj(j)) == (code(obj(i)) == code(obj(j)))))
  val inv = codeOk and refsOk and contentsOk and orderOk
}

// the layout is a permutation of the 256 places
module bitset_layout { import bitset(MAXEL = 255, SLOTS = 1).* run layoutTest = init.then(all { assert(placesOk), heap' = heap, slot' = slot, obs' = obs }) }
module bitset256 { import bitset(MAXEL = 255, SLOTS = 4).* }
module bitset_small { import bitset(MAXEL = 2, SLOTS = 2).* }
module bitset_tiny { import bitset(MAXEL = 1, SLOTS = 2).* }
