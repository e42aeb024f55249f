// Values inside JSON documents (C38): types with a text form are strings holding it, amounts are whole numbers.
module json {
  import bytes.* from "./bytes"

  pure val QUOTE: Bytes = { n: 1, v: 34 }
  pure def quoted(t: Bytes): Bytes = cat3(QUOTE, t, QUOTE)
  // a text that JSON carries as it is
  pure def plain(t: Bytes): bool = every(toList(t), c => c >= 32 and c < 127 and c != 34 and c != 92 and c != 60 and c != 62 and c != 38)
  pure def every(l: List[int], f: (int) => bool): bool = l.select(c => not(f(c))).length() == 0

  // order of texts by bytes
  pure def before(a: Bytes, b: Bytes): bool = {
    pure val n = imin(a.n, b.n)
    pure val x = take(a, n).v
    pure val y = take(b, n).v
    x < y or (x == y and a.n < b.n)
  }

  // kinds below 8 have a text form, 8 and up are numbers
  pure def inDoc(kind: int, t: Bytes): Bytes = if (kind < 8) quoted(t) else t
  pure val OPENV: Bytes = ofList([123, 34, 86, 34, 58])           // {"V":
  pure val OPENA: Bytes = ofList([123, 34, 97, 34, 58])           // {"a":
  pure val COMMAB: Bytes = ofList([44, 34, 98, 34, 58])           // ,"b":
  pure val COMMA: Bytes = ofList([44])
  pure val BRACE: Bytes = ofList([125])
  pure val CURLY: Bytes = ofList([123])
  pure val SQUARE: Bytes = ofList([91])
  pure val CLOSE: Bytes = ofList([93])
  pure val IS1: Bytes = ofList([58, 49])                          // :1
  pure val IS2: Bytes = ofList([58, 50])

  // shapes: 0 the value, 1 a pointer to it, 2 a field, 3 a field with a pointer, 4 a list, 5 a list of pointers, 6 an array,
  // 7 a map's values, 8 a list of anything, 9 a map's keys
  pure def docOf(kind: int, shape: int, t1: Bytes, t2: Bytes): Bytes =
    if (shape <= 1) inDoc(kind, t1)
    else if (shape <= 3) cat3(OPENV, inDoc(kind, t1), BRACE)
    else if (shape == 7) cat(cat4(OPENA, inDoc(kind, t1), COMMAB, inDoc(kind, t2)), BRACE)
    else if (shape == 9) {
      pure val first = before(t1, t2)
      cat(cat4(CURLY, quoted(if (first) t1 else t2), if (first) IS1 else IS2, COMMA), cat3(quoted(if (first) t2 else t1), if (first) IS2 else IS1, BRACE))
    }
    else cat(cat4(SQUARE, inDoc(kind, t1), COMMA, inDoc(kind, t2)), CLOSE)

  // value of a JSON string with escapes (of characters below 128); the quotes are part of the document
  pure def hexval(c: int): int = if (c >= 97) c - 87 else if (c >= 65) c - 55 else c - 48
  pure def unescape(doc: Bytes): Bytes = {
    pure val l = toList(doc)
    pure val s = l.slice(1, l.length() - 1)
    // state: output, mode (0 outside, 1 behind a backslash, 2..5 digits of \u), code
    ofList(s.foldl((List(), 0, 0), (st, c) =>
      if (st._2 == 0) (if (c == 92) (st._1, 1, 0) else (st._1.append(c), 0, 0))
      else if (st._2 == 1) (if (c == 117) (st._1, 2, 0) else (st._1.append(c), 0, 0))
      else if (st._2 == 5) (st._1.append(st._3 * 16 + hexval(c)), 0, 0)
      else (st._1, st._2 + 1, st._3 * 16 + hexval(c)))._1)
  }

  // whole numbers
  pure def wholeOf(doc: Bytes): List[int] = {
    pure val l = toList(doc)
    pure val neg = l.length() > 1 and l[0] == 45
    pure val d = if (neg) l.slice(1, l.length()) else l
    if (d.length() == 0 or not(every(d, isDigit)) or (d.length() > 1 and d[0] == 48)) List()
    else { pure val v = if (neg) -decValue(d) else decValue(d) if (inI64(v)) [v] else List() }
  }

  pure val T: Bytes = ofList([97, 98])
  pure val U: Bytes = ofList([97])
  run shapes = all {
    assert(docOf(0, 9, T, U) == ofList([123, 34, 97, 34, 58, 50, 44, 34, 97, 98, 34, 58, 49, 125])),
    assert(unescape(ofList([34, 92, 117, 48, 48, 54, 49, 98, 92, 47, 34])) == ofList([97, 98, 47])),
    assert(before(U, T) and not(before(T, U)) and not(before(T, T))),
    assert(wholeOf(ofList([45, 49, 50])) == [-12] and wholeOf(ofList([48, 49])) == List()),
  }
}
