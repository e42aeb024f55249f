// Binary encodings of the value types: an integer, a pair of integers, a list of pairs, a text in a list of one,
// an algorithm number with bytes.  A value is a list of integers; texts and bytes stand in it in wire form.
module wire {
  import bytes.* from "./bytes"
  import msgp.* from "./msgp"

  pure val INT = 0
  pure val ROW = 1
  pure val TABLE = 2
  pure val TEXT = 3
  pure val CONTAINER = 4
  pure val BYTE = 5

  type Read = { pos: int, v: List[int] }       // pos < 0: malformed
  pure val NONE: Read = { pos: -1, v: List() }
  pure def towire(b: Bytes): int = b.v * 65536 + b.n

  pure def readInt(b: Bytes, pos: int): Read = {
    pure val r = inRange(integer(b, pos), MinI64, MaxI64)
    if (r.pos < 0) NONE else { pos: r.pos, v: [r.v] }
  }
  pure def readRow(b: Bytes, pos: int): Read = {
    pure val h = arrHdr(b, pos)
    if (h.pos < 0 or h.v != 2) NONE else {
      pure val x = readInt(b, h.pos)
      pure val y = readInt(b, x.pos)
      if (x.pos < 0 or y.pos < 0) NONE else { pos: y.pos, v: x.v.concat(y.v) }
    }
  }
  pure def readTable(b: Bytes, pos: int): Read = {
    pure val h = arrHdr(b, pos)
    if (h.pos < 0 or h.v > b.n) NONE       // each row takes a byte at least
    else range(0, h.v).foldl({ pos: h.pos, v: List() }, (st, i) => {
      pure val r = readRow(b, st.pos)
      if (st.pos < 0 or r.pos < 0) NONE else { pos: r.pos, v: st.v.concat(r.v) }
    })
  }
  pure def readText(b: Bytes, pos: int): Read = {
    pure val h = arrHdr(b, pos)
    pure val s = textStr(b, h.pos)
    if (h.pos < 0 or h.v != 1 or s.pos < 0) NONE else { pos: s.pos, v: [towire(sub(b, s.v, s.pos))] }
  }
  pure def readByte(b: Bytes, pos: int): Read = {
    pure val a = uint8(b, pos)
    if (a.pos < 0) NONE else { pos: a.pos, v: [a.v] }
  }
  pure def readContainer(b: Bytes, pos: int): Read = {
    pure val h = arrHdr(b, pos)
    pure val a = uint8(b, h.pos)
    pure val d = binary(b, a.pos)
    if (h.pos < 0 or h.v != 2 or a.pos < 0 or d.pos < 0) NONE else { pos: d.pos, v: [a.v, towire(sub(b, d.v, d.pos))] }
  }
  pure def read(shape: int, b: Bytes, pos: int): Read =
    if (shape == INT) readInt(b, pos) else if (shape == ROW) readRow(b, pos) else if (shape == TABLE) readTable(b, pos)
    else if (shape == TEXT) readText(b, pos) else if (shape == CONTAINER) readContainer(b, pos) else readByte(b, pos)
}
