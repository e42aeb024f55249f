// -*- mode: Bluespec; -*-
// Byte strings and the small arithmetic toolbox that every other module uses.
//
// A byte string is a length and a big-endian value, so that concatenation,
// slicing and comparison are exact integer operations on unbounded integers
// (Quint integers are unbounded), whatever the length.
module bytes {
  type Bytes = { n: int, v: int }

  pure val EMPTY: Bytes = { n: 0, v: 0 }

  pure def mk(len: int, value: int): Bytes = { n: len, v: value }

  // Wire form used by recorded traces: one integer = value * 2^16 + length.
  pure def unwire(x: int): Bytes = { n: x % 65536, v: x / 65536 }

  pure def cat(a: Bytes, b: Bytes): Bytes = { n: a.n + b.n, v: a.v * 256^(b.n) + b.v }
  pure def cat3(a: Bytes, b: Bytes, c: Bytes): Bytes = cat(cat(a, b), c)
  pure def cat4(a: Bytes, b: Bytes, c: Bytes, d: Bytes): Bytes = cat(cat(a, b), cat(c, d))

  // bytes [lo, hi)
  pure def sub(a: Bytes, lo: int, hi: int): Bytes =
    { n: hi - lo, v: (a.v / 256^(a.n - hi)) % 256^(hi - lo) }
  pure def take(a: Bytes, k: int): Bytes = sub(a, 0, k)
  pure def drop(a: Bytes, k: int): Bytes = sub(a, k, a.n)
  pure def at(a: Bytes, i: int): int = (a.v / 256^(a.n - 1 - i)) % 256

  // bytes as a list of integers 0..255
  pure def shortList(n: int, v: int): List[int] =
    range(0, n).foldl((v, List()), (st, i) => (st._1 / 256, [st._1 % 256].concat(st._2)))._2
  pure def toList(a: Bytes): List[int] =
    if (a.n <= 96) shortList(a.n, a.v)
    else range(0, (a.n + 63) / 64).foldl(List(), (acc, i) => {       // (in pieces, which is much faster)
      pure val lo = 64 * i
      pure val hi = if (lo + 64 < a.n) lo + 64 else a.n
      acc.concat(shortList(hi - lo, sub(a, lo, hi).v))
    })
  pure def ofList(l: List[int]): Bytes =
    if (l.length() <= 128) { n: l.length(), v: l.foldl(0, (acc, x) => acc * 256 + x) }
    else { n: l.length(), v: l.foldl((0, 0, 1), (st, x) =>           // (in pieces as well)
      if (st._3 == 256^64) (st._1 * 256^64 + st._2, x, 256) else (st._1, st._2 * 256 + x, st._3 * 256)).collect() }
  pure def collect(st: (int, int, int)): int = st._1 * st._3 + st._2

  pure def isAsciiUpper(c: int): bool = c >= 65 and c <= 90
  pure def isDigit(c: int): bool = c >= 48 and c <= 57
  pure def lowerByte(c: int): int = if (isAsciiUpper(c)) c + 32 else c
  pure def lower(a: Bytes): Bytes = ofList(toList(a).foldl(List(), (acc, c) => acc.append(lowerByte(c))))

  pure def hasPrefix(a: Bytes, p: Bytes): bool = a.n >= p.n and take(a, p.n) == p

  // Euclidean remainder, and truncated (Go) division of possibly negative ints
  pure def md(a: int, m: int): int = { pure val r = a % m { if (r < 0) r + m else r } }
  pure def abs(a: int): int = if (a < 0) -a else a
  pure def tdiv(a: int, b: int): int = {
    pure val q = abs(a) / abs(b)
    if ((a < 0) != (b < 0)) -q else q
  }
  pure def tmod(a: int, b: int): int = a - b * tdiv(a, b)
  pure def imin(a: int, b: int): int = if (a < b) a else b
  pure def imax(a: int, b: int): int = if (a > b) a else b

  // decimal digits of a non-negative integer, as ASCII
  pure def decDigits(x: int): List[int] =
    if (x == 0) [48] else
    range(0, 80).foldl((x, List()), (st, i) =>
      if (st._1 == 0) st else (st._1 / 10, [48 + st._1 % 10].concat(st._2)))._2
  // value of a list of ASCII digits
  pure def decValue(l: List[int]): int = l.foldl(0, (acc, c) => acc * 10 + (c - 48))

  // a record [1000, before, after] of memory that a call was lent: calls only read it, and what they return does not
  // depend on it any more
  pure def vMemory(r: List[int]): int = if (r[1] == r[2]) 1000 else -800

  pure def MaxI64: int = 2^63 - 1
  pure def MinI64: int = -(2^63)
  pure def MaxU64: int = 2^64 - 1
  pure def inI64(x: int): bool = x >= MinI64 and x <= MaxI64
  pure def inU64(x: int): bool = x >= 0 and x <= MaxU64
}
