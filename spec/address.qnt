// ndau addresses: generation, validation, canonical form, kinds.
module address {
  import bytes.* from "./bytes"
  import b32.* from "./b32"

  pure val ADDR_LEN: int = 48
  pure val HASH_TRIM: int = 26
  pure val MIN_DATA: int = 12
  pure val KINDS: Set[int] = Set(97, 110, 101, 120, 98, 109) // a n e x b m

  // n d kind, as three 5-bit characters followed by one zero bit
  pure def header(kind: int): Bytes = { n: 2, v: idx(110) * 2^11 + idx(100) * 2^6 + idx(kind) * 2 }

  pure def mayGenerate(kind: int, dataLen: int): bool = KINDS.contains(kind) and dataLen >= MIN_DATA

  // h = SHA-256 of the data (a fact supplied with the trace)
  pure def generate(kind: int, h: Bytes): Bytes = {
    pure val body = cat(header(kind), sub(h, h.n - HASH_TRIM, h.n))
    encode(cat(body, checksum16(body)))
  }

  // the character values of a text, -1 where it is not in the alphabet
  pure def values(text: Bytes): List[int] =
    toList(text).foldl(List(), (acc, c) => acc.append(idx(lowerByte(c))))

  // zero iff the last 16 bits are the CRC of the first 224
  pure def residue(vs: List[int]): int = {
    pure val v = vs.foldl(0, (acc, x) => acc * 32 + x)
    pure val body = { n: 28, v: v / 65536 }
    crc16(body) - v % 65536
  }

  pure def accepts(text: Bytes): bool =
    if (text.n != ADDR_LEN) false
    else if (not(KINDS.contains(lowerByte(at(text, 2))))) false
    else {
      pure val vs = values(text)
      if (vs.select(x => x < 0).length() > 0) false else residue(vs) == 0
    }

  pure def canonical(text: Bytes): Bytes = lower(text)
  pure def kindOf(text: Bytes): int = lowerByte(at(text, 2))

  // ParseKind on strings: known names in any case, else the first letter decides; -1 = error
  pure def kindOfName(s: Bytes): int =
    if (s.n == 0) -1
    else {
      pure val w = toList(lower(s))
      pure val k =
        if (w == [117] or w == [117, 115, 101, 114]) 97                      // u, user
        else if (w == [110, 100, 97, 117]) 110                               // ndau
        else if (w == [101, 110, 100, 111, 119, 109, 101, 110, 116]) 101     // endowment
        else if (w == [101, 120, 99, 104, 97, 110, 103, 101]) 120            // exchange
        else if (w == [98, 112, 99]) 98                                      // bpc
        else if (w == [109, 97, 114, 107, 101, 116, 109, 97, 107, 101, 114]) 109 // marketmaker
        else w[0]
      if (KINDS.contains(k)) k else -1
    }
  // ParseKind on a character: byte and int8 exactly, rune in any case
  pure def kindOfByte(b: int): int = if (KINDS.contains(b)) b else -1
}
