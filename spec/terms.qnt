// Keys as terms: which key an object denotes, without computing it.
// A key is named by its seed, the child numbers along its derivation, and whether the private part is held.
// (Public derivation commutes with private derivation, C02, so the order of conversion does not matter.)
// hard: the first hardened child number (2^31; smaller in the exhaustively checked instance)
module terms {
  type Key = { st: int, seed: int, path: List[int], priv: bool }
  pure val ZERO: Key = { st: 0, seed: 0, path: [], priv: false }     // no key
  pure val UNDEF: Key = { st: 2, seed: 0, path: [], priv: false }    // unspecified (after a failed parse)
  pure def isKey(k: Key): bool = k.st == 1
  pure def master(s: int): Key = { st: 1, seed: s, path: [], priv: true }
  pure def neuter(k: Key): Key = { ...k, priv: false }
  pure def childOk(k: Key, n: int, hard: int): bool = isKey(k) and (k.priv or n < hard)
  pure def child(k: Key, n: int): Key = { ...k, path: k.path.append(n) }
  pure def hardOk(k: Key, n: int, hard: int): bool = n < hard and childOk(k, n + hard, hard)
}
