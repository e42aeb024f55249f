// Recorded calls of the bitset decoders and comparisons, judged against the number reading of a set (C16, C17).
module tv_bitset {
  import bytes.* from "./bytes"

  pure def isHex(c: int): bool = isDigit(c) or (c >= 97 and c <= 102) or (c >= 65 and c <= 70)
  pure def hexVal(c: int): int = if (isDigit(c)) c - 48 else lowerByte(c) - 87
  pure def hexDigit(x: int): int = if (x < 10) 48 + x else 87 + x
  pure def hexText(v: int): List[int] = range(0, 64).foldl((v, List()), (st, i) => (st._1 / 16, [hexDigit(st._1 % 16)].concat(st._2)))._2
  pure def bitCount(v: int): int = range(0, 32).foldl((v, 0), (st, i) =>
    (st._1 / 256, range(0, 8).foldl((st._1 % 256, st._2), (q, j) => (q._1 / 2, q._2 + q._1 % 2))._2))._2
  pure def bitAnd(a: int, b: int): int = range(0, 256).foldl((a, b, 1, 0), (st, i) =>
    (st._1 / 2, st._2 / 2, st._3 * 2, st._4 + (if (st._1 % 2 == 1 and st._2 % 2 == 1) st._3 else 0)))._4

  // sets as numbers: element e is bit e; the encoding puts it at place(e)
  pure def place(e: int): int = 8 * (((e % 64) / 8) * 4 + e / 64) + e % 8
  // set denoted by the bytes with big-endian value x: byte k from the end is elements 64 * (k % 4) + 8 * (k / 4) + 0..7
  pure def setOfCode(x: int): int = range(0, 32).foldl((x, 0), (st, k) =>
    (st._1 / 256, st._2 + (st._1 % 256) * 2^(64 * (k % 4) + 8 * (k / 4))))._2
  pure def codeOfSet(v: int): int = range(0, 32).foldl((v, 0), (st, k) =>
    (st._1 / 256, st._2 + (st._1 % 256) * 2^(8 * place8(k))))._2
  pure def place8(k: int): int = (k % 8) * 4 + k / 8
  // the set v as shown by the accessors
  pure def shown(r: List[int], v: int): int =
    if (r[3] != v) -10                       // Get
    else if (r[4] != v or r[5] != 1) -11     // Indices: the same elements, ascending
    else if (r[6] != bitCount(v) or r[7] != r[6]) -12
    else if (unwire(r[8]) != mk(32, codeOfSet(v))) -13  // AsBytes
    else if (unwire(r[9]) != ofList(hexText(codeOfSet(v))) or r[9] != r[10]) -14
    else 1

  pure def verdict(r: List[int]): int = {
    pure val s = unwire(r[2])
    if (r[0] == 1000) vMemory(r)
    else if (r[0] == 1) {
      if (r[1] > 1) -1
      else if (s.n != 32) (if (r[1] == 1) 10 else -2)
      else if (r[1] != 0) -3
      else { pure val x = shown(r, setOfCode(s.v)) if (x < 0) x else 11 }
    } else if (r[0] == 2) {
      pure val l = toList(s)
      pure val ok = s.n == 64 and l.foldl(true, (acc, c) => acc and isHex(c))
      if (r[1] > 1) -4
      else if (not(ok)) (if (r[1] == 1) 20 else -5)
      else if (r[1] != 0) -6
      else { pure val x = shown(r, setOfCode(l.foldl(0, (acc, c) => acc * 16 + hexVal(c)))) if (x < 0) x else 21 }
    } else if (r[0] == 3) {
      pure val a = setOfCode(s.v)
      pure val b = setOfCode(unwire(r[3]).v)
      pure val both = bitAnd(a, b)
      if (r[1] != 0) -20
      else if (r[4] != a or r[5] != b) -21
      else if ((r[6] == 1) != (a == b)) -22
      else if ((r[7] == 1) != (a < b)) -23
      else if ((r[8] == 1) != (both == a)) -24
      else if (r[9] != both) -25
      else if (r[10] != a + b - both) -26
      else if (a == b) 30 else if (both == a) 31 else 32
    } else if (r[0] == 4) {
      // [4, status, a, e, which, contents afterwards, same object, Count]
      if (r[1] != 0) -30
      else {
        pure val has = (r[2] / 2^r[3]) % 2 == 1
        pure val want = if (r[4] == 0) (if (has) r[2] else r[2] + 2^r[3]) else if (r[4] == 1) (if (has) r[2] - 2^r[3] else r[2]) else if (has) r[2] - 2^r[3] else r[2] + 2^r[3]
        if (r[5] != want) -31 else if (r[6] != 1) -32 else if (r[7] != bitCount(want)) -33 else if (has) 40 else 41
      }
    } else -1000
  }
}
