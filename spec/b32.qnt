// The ndau base32 codec and the CRC16 (AUG_CCITT) checksum.
module b32 {
  import bytes.* from "./bytes"

  // a..k m n p..z 2..9 : lowercase letters and digits without l, o, 0, 1
  pure val ALPHABET: List[int] = [
    97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 109, 110, 112, 113, 114,
    115, 116, 117, 118, 119, 120, 121, 122, 50, 51, 52, 53, 54, 55, 56, 57 ]

  // position of an ASCII character in the alphabet, or -1
  pure def idx(c: int): int =
    if (c >= 97 and c <= 107) c - 97
    else if (c >= 109 and c <= 110) c - 98
    else if (c >= 112 and c <= 122) c - 99
    else if (c >= 50 and c <= 57) c - 26
    else -1

  pure val PAD: int = 61

  // standard base32 encoding with padding; the result is ASCII text
  pure def encodePiece(b: Bytes): Bytes = {
    pure val nd = (8 * b.n + 4) / 5
    pure val v = b.v * 2^(5 * nd - 8 * b.n)
    pure val digits = range(0, nd).foldl((v, List()), (st, i) =>
      (st._1 / 32, [ALPHABET[st._1 % 32]].concat(st._2)))._2
    pure val padded = range(0, md(-nd, 8)).foldl(digits, (acc, i) => acc.append(PAD))
    ofList(padded)
  }
  // every 5 bytes are encoded by themselves
  pure def encode(b: Bytes): Bytes =
    if (b.n <= 120) encodePiece(b)
    else range(0, (b.n + 59) / 60).foldl(EMPTY, (acc, i) =>
      cat(acc, encodePiece(sub(b, 60 * i, if (60 * i + 60 < b.n) 60 * i + 60 else b.n))))

  type Decoded = { ok: bool, out: Bytes }
  pure val REJECT: Decoded = { ok: false, out: EMPTY }

  // decoder automaton: mode 0 = reading, 1 = in required padding, 2 = finished (rest ignored), 3 = rejected
  // state: (mode, value so far, characters so far in total, pads still required)
  type DecSt = { mode: int, v: int, n: int, need: int }

  // one character c with `rest` characters after it
  pure def decStep(st: DecSt, c: int, rest: int): DecSt = {
    pure val j = st.n % 8
    if (st.mode == 2 or st.mode == 3) st
    else if (st.mode == 1)
      (if (c != PAD) { ...st, mode: 3 }
       else if (st.need == 1) { ...st, mode: 2, need: 0 }
       else { ...st, need: st.need - 1 })
    else if (c == PAD and j >= 2 and rest < 8)
      (if (rest + j < 7 or j == 3 or j == 6) { ...st, mode: 3 }
       else if (j == 7) { ...st, mode: 2 }
       else { ...st, mode: 1, need: 7 - j })
    else if (idx(c) < 0) { ...st, mode: 3 }
    else { ...st, v: st.v * 32 + idx(c), n: st.n + 1 }
  }

  // text: lower-cased, line breaks removed, as a list of characters
  pure def decodeChars(cs: List[int]): Decoded = {
    pure val len = cs.length()
    pure val fin = range(0, len).foldl({ mode: 0, v: 0, n: 0, need: 0 }, (st, i) =>
      decStep(st, cs[i], len - i - 1))
    if (fin.mode == 3 or fin.mode == 1) REJECT
    else if (fin.mode == 0 and fin.n % 8 != 0) REJECT
    else {
      pure val nb = (fin.n * 5) / 8
      { ok: true, out: { n: nb, v: fin.v / 2^(fin.n * 5 - nb * 8) } }
    }
  }

  // decoder on ASCII text, case insensitive, CR and LF ignored
  pure def decode(text: Bytes): Decoded =
    decodeChars(toList(text).foldl(List(), (acc, c) =>
      if (c == 10 or c == 13) acc else acc.append(lowerByte(c))))

  // --- CRC16 AUG_CCITT: polynomial 0x1021, initial value 0x1D0F, bit serial ---
  pure def flip(x: int, p: int): int = if ((x / p) % 2 == 1) x - p else x + p
  pure def crcBit(c: int, b: int): int = {
    pure val top = c / 32768
    pure val sh = (c % 32768) * 2
    if (top + b == 1) flip(flip(flip(sh, 4096), 32), 1) else sh
  }
  pure def crc16bits(init0: int, v: int, nbits: int): int =
    range(0, nbits).foldl((init0, 2^(nbits - 1)), (st, i) => (crcBit(st._1, (v / st._2) % 2), st._2 / 2))._1
  pure def crc16(b: Bytes): int = if (b.n == 0) 7439 else crc16bits(7439, b.v, 8 * b.n)
  pure def checksum16(b: Bytes): Bytes = { n: 2, v: crc16(b) }
}
