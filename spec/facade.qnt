// The string facade (keyaddr): variables hold texts, every call parses them anew (C20).
module facade {
  import terms.* from "./terms"
  const XV: Set[int]
  const NUMS: Set[int]     // int32 child numbers
  const HARD: int          // first hardened child number
  const DEEP: int

  // how a text spells its key
  pure val NEW = 0         // as the library writes it
  pure val OLD = 1         // pre-2018 format
  pure val CASED = 2       // new format, letter case changed
  pure val BAD = 3         // not a key
  type Text = { k: Key, form: int }
  pure val JUNK: Text = { k: ZERO, form: BAD }
  pure def text(k: Key): Text = { k: k, form: NEW }

  var s: int -> Text       // variable -> text
  var ok: bool             // did the last call succeed

  action keep(good: bool): bool = all { s' = s, ok' = good }
  action assignText(j: int, t: Text): bool = all { s' = s.set(j, t), ok' = true }
  // a call that yields text t in variable j, or an error
  action yields(good: bool, j: int, t: Text): bool = if (good) assignText(j, t) else keep(false)

  def at(i: int): Text = s.get(i)
  // methods work on new-format texts; old-format ones have to come in through FromString (left open otherwise)
  def open(i: int): bool = at(i).form != OLD
  def good(i: int): bool = at(i).form == NEW or at(i).form == CASED

  action init = all { s' = XV.mapBy(i => JUNK), ok' = true }

  // seeds 0..3 are valid (also 8..11), 4 too short, 5 too long, 6 and from 12 on not base64, 7 empty
  action NewKey = { nondet j = XV.oneOf() nondet n = 0.to(16).oneOf() yields(n != 4 and n != 5 and n != 6 and n != 7 and n < 12, j, text(master(n % 4))) }
  action FromString = { nondet i = XV.oneOf() nondet j = XV.oneOf() yields(at(i).form != BAD, j, text(at(i).k)) }
  action FromOldString = { nondet i = XV.oneOf() nondet j = XV.oneOf() yields(at(i).form == OLD, j, text(at(i).k)) }
  action DeriveFrom = { nondet i = XV.oneOf() nondet j = XV.oneOf() nondet n = NUMS.oneOf() nondet m = NUMS.oneOf()
    all { n >= 0, m >= 0, at(i).k.path.length() + 1 < DEEP,
      yields(at(i).form != BAD and childOk(at(i).k, n, HARD) and childOk(at(i).k, m, HARD), j, text(child(child(at(i).k, n), m))) } }
  // the last element hardened, written with an apostrophe
  action DeriveHard = { nondet i = XV.oneOf() nondet j = XV.oneOf() nondet n = NUMS.oneOf()
    all { n >= 0, at(i).k.path.length() < DEEP,
      yields(at(i).form != BAD and hardOk(at(i).k, n, HARD), j, text(child(at(i).k, n + HARD))) } }
  action ToPublic = { nondet i = XV.oneOf() nondet j = XV.oneOf() all { open(i), yields(good(i), j, text(neuter(at(i).k))) } }
  action Child = { nondet i = XV.oneOf() nondet j = XV.oneOf() nondet n = NUMS.oneOf()
    all { open(i), at(i).k.path.length() < DEEP, yields(n >= 0 and good(i) and childOk(at(i).k, n, HARD), j, text(child(at(i).k, n))) } }
  action HardenedChild = { nondet i = XV.oneOf() nondet j = XV.oneOf() nondet n = NUMS.oneOf()
    all { open(i), at(i).k.path.length() < DEEP, yields(n >= 0 and good(i) and hardOk(at(i).k, n, HARD), j, text(child(at(i).k, n + HARD))) } }
  // what the caller does with the object afterwards (m) changes no text
  action ViaExtended = { nondet i = XV.oneOf() nondet j = XV.oneOf() nondet m = 0.to(2).oneOf() all { open(i), yields(good(i), j, text(at(i).k)) } }
  action ViaPublicKey = { nondet i = XV.oneOf() nondet j = XV.oneOf() nondet m = 0.to(2).oneOf() all { open(i), yields(good(i), j, text(neuter(at(i).k))) } }
  action ViaPrivateKey = { nondet i = XV.oneOf() nondet j = XV.oneOf() nondet m = 0.to(2).oneOf() all { open(i), yields(good(i) and at(i).k.priv, j, text(at(i).k)) } }
  action IsPrivate = { nondet i = XV.oneOf() all { open(i), keep(good(i)) } }
  action NdauAddress = { nondet i = XV.oneOf() all { open(i), keep(good(i)) } }
  // messages from 6 on are not base64
  action Sign = { nondet i = XV.oneOf() nondet n = 0.to(11).oneOf() all { open(i), keep(good(i) and at(i).k.priv and n < 6) } }
  // the caller edits a text
  action Recase = { nondet i = XV.oneOf() nondet n = 0.to(2).oneOf() all { good(i), assignText(i, { ...at(i), form: CASED }) } }
  action Outdate = { nondet i = XV.oneOf() nondet j = XV.oneOf() all { good(i), assignText(j, { ...at(i), form: OLD }) } }
  action Spoil = { nondet j = XV.oneOf() nondet n = 0.to(7).oneOf() assignText(j, JUNK) }
  // a known text with a mistake
  action Mistype = { nondet i = XV.oneOf() nondet j = XV.oneOf() nondet n = 0.to(15).oneOf() all { good(i), assignText(j, JUNK) } }
  action CopyText = { nondet i = XV.oneOf() nondet j = XV.oneOf() assignText(j, at(i)) }

  action step = any { NewKey, FromString, FromOldString, DeriveFrom, DeriveHard, ToPublic, Child, HardenedChild, ViaExtended,
    ViaPublicKey, ViaPrivateKey, IsPrivate, NdauAddress, Sign, Recase, Outdate, Spoil, Mistype, CopyText }

  // ---- properties of the specification ----------------------------------------
  val typed = XV.forall(i => at(i).form == BAD or isKey(at(i).k))
  // no call on public keys ever yields a private one: private texts descend from NewKey only through private texts
  val inv = typed
}
module facade_full {
  import facade(XV = 0.to(4), NUMS = Set(-2147483648, -1, 0, 1, 2, 5, 2147483646, 2147483647), HARD = 2147483648, DEEP = 5).*
}
module facade_small {
  import facade(XV = 0.to(1), NUMS = Set(-1, 1), HARD = 4, DEEP = 2).*
}
