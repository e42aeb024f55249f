// MessagePack as ndaumath uses it: array headers, unsigned and signed integers, binary strings, text.
// A parser result carries the position after the item; pos < 0 means malformed.
module msgp {
  import bytes.* from "./bytes"

  type P = { pos: int, v: int }
  pure val BAD: P = { pos: -1, v: 0 }
  pure def num(b: Bytes, lo: int, len: int): int = sub(b, lo, lo + len).v
  pure def sgn(v: int, len: int): int = if (v >= 256^len / 2) v - 256^len else v

  // encodings --------------------------------------------------------------
  pure def encUint(v: int): Bytes =
    if (v < 128) mk(1, v) else if (v < 256) mk(2, 0xcc00 + v) else if (v < 65536) mk(3, 0xcd0000 + v)
    else if (v < 2^32) mk(5, 0xce00000000 + v) else mk(9, 0xcf * 2^64 + v)
  // signed integers: positive values as in encInt of the library (positive fixint, then int16/32/64 or uint forms)
  pure def encBinHdr(n: int): Bytes =
    if (n < 256) mk(2, 0xc400 + n) else if (n < 65536) mk(3, 0xc50000 + n) else mk(5, 0xc600000000 + n)
  pure def encBin(b: Bytes): Bytes = cat(encBinHdr(b.n), b)
  pure def encStr(b: Bytes): Bytes =
    cat(if (b.n < 32) mk(1, 0xa0 + b.n) else if (b.n < 256) mk(2, 0xd900 + b.n)
        else if (b.n < 65536) mk(3, 0xda0000 + b.n) else mk(5, 0xdb00000000 + b.n), b)
  pure def encArr(n: int): Bytes =
    if (n < 16) mk(1, 0x90 + n) else if (n < 65536) mk(3, 0xdc0000 + n) else mk(5, 0xdd00000000 + n)

  // parsers ------------------------------------------------------------------
  pure def fixed(b: Bytes, pos: int, len: int): P =
    if (b.n < pos + 1 + len) BAD else { pos: pos + 1 + len, v: num(b, pos + 1, len) }
  pure def arrHdr(b: Bytes, pos: int): P =
    if (pos < 0 or pos >= b.n) BAD else {
      pure val c = at(b, pos)
      if (c >= 0x90 and c <= 0x9f) { pos: pos + 1, v: c - 0x90 }
      else if (c == 0xdc) fixed(b, pos, 2) else if (c == 0xdd) fixed(b, pos, 4) else BAD
    }
  // any integer encoding, as a mathematical integer
  pure def integer(b: Bytes, pos: int): P =
    if (pos < 0 or pos >= b.n) BAD else {
      pure val c = at(b, pos)
      if (c < 128) { pos: pos + 1, v: c }
      else if (c >= 0xe0) { pos: pos + 1, v: c - 256 }
      else if (c >= 0xcc and c <= 0xcf) fixed(b, pos, 2^(c - 0xcc))
      else if (c >= 0xd0 and c <= 0xd3) {
        pure val len = 2^(c - 0xd0)
        pure val r = fixed(b, pos, len)
        if (r.pos < 0) BAD else { pos: r.pos, v: sgn(r.v, len) }
      }
      else BAD
    }
  pure def inRange(r: P, lo: int, hi: int): P = if (r.pos >= 0 and r.v >= lo and r.v <= hi) r else BAD
  pure def uint8(b: Bytes, pos: int): P = inRange(integer(b, pos), 0, 255)
  // binary string: v is the position where the contents start
  pure def binary(b: Bytes, pos: int): P =
    if (pos < 0 or pos >= b.n) BAD else {
      pure val c = at(b, pos)
      if (c < 0xc4 or c > 0xc6) BAD else {
        pure val w = 2^(c - 0xc4)
        pure val h = fixed(b, pos, w)
        if (h.pos < 0 or b.n < h.pos + h.v) BAD else { pos: h.pos + h.v, v: h.pos }
      }
    }
  // text string: v is the position where the contents start
  pure def textStr(b: Bytes, pos: int): P =
    if (pos < 0 or pos >= b.n) BAD else {
      pure val c = at(b, pos)
      pure val h = if (c >= 0xa0 and c <= 0xbf) { pos: pos + 1, v: c - 0xa0 }
        else if (c >= 0xd9 and c <= 0xdb) fixed(b, pos, 2^(c - 0xd9)) else BAD
      if (h.pos < 0 or b.n < h.pos + h.v) BAD else { pos: h.pos + h.v, v: h.pos }
    }
}
