// Recovery phrases: bytes <-> lists of 11-bit word numbers with 4 to 14 check bits, and prefix lookup.
module words {
  import bytes.* from "./bytes"
  import wordlist.* from "./wordlist"

  pure val NWORDS: int = 2048

  // 8-bit CRC, generator 0x1D, most significant bit first
  pure def xor8(a: int, b: int): int = range(0, 8).foldl((a, b, 1, 0), (st, i) =>
    (st._1 / 2, st._2 / 2, st._3 * 2, st._4 + (if (st._1 % 2 != st._2 % 2) st._3 else 0)))._4
  pure def crcBits(c: int): int = range(0, 8).foldl(c, (x, i) =>
    if (x >= 128) xor8((2 * x) % 256, 29) else 2 * x)
  pure def crc8(b: Bytes): int = toList(b).foldl(0, (crc, c) => crcBits(xor8(crc, c)))

  // at least 4 check bits, and a whole number of words
  pure def wordsFor(n: int): int = (8 * n + 4 + 10) / 11
  pure def checkLen(n: int): int = 11 * wordsFor(n) - 8 * n
  // the phrase for b as one number of 11 * wordsFor(b.n) bits
  pure def phrase(b: Bytes): int = b.v * 2^(checkLen(b.n)) + crc8(b) % 2^(checkLen(b.n))
  pure def wordNumbers(b: Bytes): List[int] = range(0, wordsFor(b.n)).foldl((phrase(b), List()), (st, i) =>
    (st._1 / 2048, [st._1 % 2048].concat(st._2)))._2

  // the byte strings whose phrase is the given list of k word numbers with value p
  pure def readingOk(p: int, k: int, n: int): bool =
    n >= 0 and wordsFor(n) == k and phrase(mk(n, p / 2^(11 * k - 8 * n))) == p
  pure def readings(p: int, k: int): List[Bytes] = {
    pure val m = (11 * k) / 8
    [m - 1, m].foldl(List(), (acc, n) =>
      if (readingOk(p, k, n)) acc.append(mk(n, p / 2^(11 * k - 8 * n))) else acc)
  }

  // prefix lookup: (count, text so far)
  pure def fromPrefix(prefix: Bytes, limit: int): Bytes =
    range(0, NWORDS).foldl((0, EMPTY), (st, i) =>
      if (limit > 0 and st._1 >= limit) st
      else {
        pure val w = unwire(word(i))
        if (not(hasPrefix(w, prefix))) st
        else (st._1 + 1, if (st._1 == 0) w else cat3(st._2, mk(1, 32), w))
      })._2

  // the list is strictly ascending as text (so all words are distinct and binary search is justified)
  pure def before(a: Bytes, b: Bytes): bool = a.v * 256^(16 - a.n) < b.v * 256^(16 - b.n)
  pure val listOk: bool = range(0, NWORDS - 1).foldl(true, (acc, i) => acc and before(unwire(word(i)), unwire(word(i + 1))))
  // words are told apart by their first four letters
  pure val fourOk: bool = range(0, NWORDS - 1).foldl(true, (acc, i) => {
    pure val a = unwire(word(i))
    pure val b = unwire(word(i + 1))
    acc and (take(a, imin(4, a.n)) != take(b, imin(4, b.n)))
  })
  run listTest = assert(listOk and fourOk)
  run crcTest = assert(and { crc8(mk(1, 0)) == 0, crc8(mk(1, 1)) == 29, crc8(mk(4, 16909060)) == 62 })
  // every length 0..64: 4 to 14 check bits, and a phrase of k words is a phrase of at most two lengths
  run lenTest = assert(and {
    range(0, 65).foldl(true, (acc, n) => acc and checkLen(n) >= 4 and checkLen(n) <= 14),
    range(1, 60).foldl(true, (acc, k) => acc and
      range(0, 90).select(n => wordsFor(n) == k).foldl(true, (a2, n) => a2 and (n == (11 * k) / 8 or n == (11 * k) / 8 - 1))),
  })
}
