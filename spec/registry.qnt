// The registry of signature algorithms: id -> algorithm type, built-in ids below 128 (C15).
// Algorithm types are numbers; two types may carry the same name (types of different packages).
module registry {
  const IDS: Set[int]       // ids registrations try
  const TYPES: Set[int]

  pure val NULL = 0
  pure val ANON = 30        // a type without a name
  pure val NIL = 31         // no algorithm at all
  // 20 is named like 10, 21 like the built-in 1, 22 like the built-in 0
  pure def name(t: int): int = if (t == 20) 10 else if (t == 21) 1 else if (t == 22) 0 else t
  pure val BUILTIN: int -> int = Map(0 -> 0, 1 -> 1, 2 -> 2)

  var reg: int -> int       // what each id denotes
  var old: int -> int       // the same before the last step
  var ok: bool              // did the last registration succeed

  def typesIn: Set[int] = reg.keys().map(i => reg.get(i))
  // may type t be given id i, keeping the registry one to one
  def allowed(i: int, t: int): bool = and {
    i >= 128, t != ANON, t != NIL,
    if (reg.keys().contains(i)) reg.get(i) == t else not(typesIn.contains(t)),
  }
  // whether two types of one name may be registered side by side is left open
  def clash(i: int, t: int): bool =
    allowed(i, t) and typesIn.exists(u => u != t and name(u) == name(t))

  action init = all { reg' = BUILTIN, old' = BUILTIN, ok' = true }
  // form: 0 given by value, 1 by pointer, 2 by nil pointer
  action Register = {
    nondet i = IDS.oneOf()
    nondet t = TYPES.oneOf()
    nondet form = Set(0, 1, 2).oneOf()
    all {
      not(clash(i, t)),
      old' = reg,
      ok' = allowed(i, t),
      reg' = if (allowed(i, t)) reg.put(i, t) else reg,
    }
  }
  // a registration attempt that is expected to succeed, so that histories get long
  action RegisterNew = {
    nondet i = IDS.filter(x => x >= 128).oneOf()
    nondet t = TYPES.filter(x => x >= 3 and x < 30).oneOf()
    nondet form = Set(0, 1, 2).oneOf()
    all {
      allowed(i, t), not(clash(i, t)),
      old' = reg, ok' = true, reg' = reg.put(i, t),
    }
  }
  action Idle = all { reg' = reg, old' = reg, ok' = ok }
  action step = any { Register, RegisterNew, Idle }

  val builtinsFixed = BUILTIN.keys().forall(i => reg.get(i) == BUILTIN.get(i))
  val reservedFixed = reg.keys().filter(i => i < 128) == BUILTIN.keys()
  val oneToOne = reg.keys().forall(i => reg.keys().forall(j => reg.get(i) == reg.get(j) implies i == j))
  val neverChanges = old.keys().forall(i => reg.keys().contains(i) and reg.get(i) == old.get(i))
  val failedIsNoop = not(ok) implies reg == old
  val onlyAlgorithms = not(typesIn.contains(ANON)) and not(typesIn.contains(NIL))
  val inv = and { builtinsFixed, reservedFixed, oneToOne, neverChanges, failedIsNoop, onlyAlgorithms }
}
module registry_full {
  import registry(IDS = Set(0, 1, 2, 3, 64, 127, 128, 129, 130, 191, 254, 255), TYPES = Set(0, 1, 2, 10, 11, 12, 13, 20, 21, 22, 30, 31)).*
}
module registry_small {
  import registry(IDS = Set(0, 1, 3, 127, 128, 129, 255), TYPES = Set(0, 1, 10, 11, 20, 21, 30, 31)).*
}
