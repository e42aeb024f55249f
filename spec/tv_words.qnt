// Recorded calls of package words judged by the specification (C18, C19; totality for C13).
module tv_words {
  import bytes.* from "./bytes"
  import words.* from "./words"

  // word numbers packed as two bytes each; 65535 is not a word
  pure def unpack(b: Bytes): List[int] = range(0, b.n / 2).foldl((b.v, List()), (st, i) =>
    (st._1 / 65536, [st._1 % 65536].concat(st._2)))._2
  pure def valueOf(l: List[int]): int = l.foldl(0, (acc, x) => acc * 2048 + x)

  pure def verdict(r: List[int]): int = {
    if (r[0] == 1000) vMemory(r)
    else if (r[1] >= 2) -1                                          // panic or hang
    else if (r[0] == 1) {
      // [1, status, language known, bytes, words, status of ToBytes of them, its result]
      pure val b = unwire(r[3])
      if (r[2] != 1) (if (r[1] == 1) 10 else -2)
      else if (r[1] != 0) -3
      else {
        pure val ws = wordNumbers(b)
        if (unpack(unwire(r[4])) != ws) -4
        else if (r[5] >= 2) -5
        else if (r[5] == 0 and unwire(r[6]) == b) 11
        else {
          // the same phrase is also that of a shorter byte string: the format is ambiguous there
          pure val rs = readings(valueOf(ws), ws.length())
          if (rs.length() == 2 and rs[0].n == b.n - 1 and r[5] == 0 and unwire(r[6]) == rs[0]) -50 else -6
        }
      }
    } else if (r[0] == 2) {
      // [2, status, language known, words, result, arguments unchanged]
      pure val ws = unpack(unwire(r[3]))
      pure val k = ws.length()
      pure val known = r[2] == 1 and k > 0 and ws.select(x => x == 65535).length() == 0
      if (r[5] != 1) -10
      else if (not(known)) (if (r[1] == 1) 20 else -11)
      else {
        pure val rs = readings(valueOf(ws), k)
        if (rs.length() == 0) (if (r[1] == 1) 21 else -12)
        else if (r[1] != 0) -13
        else if (rs.select(x => x == unwire(r[4])).length() == 0) -14
        else 21 + rs.length()
      }
    } else if (r[0] == 3) {
      // [3, status, language known, prefix, max, result]
      pure val out = unwire(r[5])
      if (r[1] != 0) -20
      else if (r[2] != 1) (if (out.n == 0) 30 else -21)
      else if (out != fromPrefix(unwire(r[3]), r[4])) -22
      else if (out.n == 0) 31 else 32
    } else if (r[0] == 4) (if (r[1] == 1) 40 else -30)         // [4, status]  must be refused
    else -1000
  }
}
