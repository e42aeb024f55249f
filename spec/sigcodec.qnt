// Serialization of keys and signatures: the identified-data container, the key packing,
// the checksum wrapper and the text forms (C11, C12, C13, C05).
module sigcodec {
  import bytes.* from "./bytes"
  import b32.* from "./b32"
  import msgp.* from "./msgp"

  // ---- checksum wrapper ----------------------------------------------------
  // number of checksum bytes for a message of n bytes: 3..7, making 1 + n + width a multiple of 5
  pure def ckWidth(n: int): int = 3 + md(-(n + 4), 5)
  // h is SHA-224 of the message
  pure def wrap(m: Bytes, h: Bytes): Bytes =
    cat3(mk(1, ckWidth(m.n)), m, sub(h, 28 - ckWidth(m.n), 28))
  // the only message that `b` can be a wrapping of; n = -1 if there is none
  pure val NOMSG: Bytes = { n: -1, v: 0 }
  pure def candidate(b: Bytes): Bytes =
    if (b.n < 4 or b.n % 5 != 0) NOMSG else {
      pure val w = at(b, 0)
      if (w < 3 or w > 7 or b.n - 1 - w < 0 or ckWidth(b.n - 1 - w) != w) NOMSG
      else sub(b, 1, b.n - w)
    }

  // ---- container: [algorithm id, data] -----------------------------------------
  pure def encContainer(id: int, data: Bytes): Bytes = cat3(encArr(2), encUint(id), encBin(data))
  type Cont = { ok: bool, id: int, data: Bytes, rest: int }
  pure val NOCONT: Cont = { ok: false, id: 0, data: EMPTY, rest: 0 }
  pure def decContainer(b: Bytes): Cont = {
    pure val h = arrHdr(b, 0)
    if (h.pos < 0 or h.v != 2) NOCONT else {
      pure val a = uint8(b, h.pos)
      pure val d = binary(b, a.pos)
      if (d.pos < 0) NOCONT
      else { ok: true, id: a.v, data: sub(b, d.v, d.pos), rest: d.pos }
    }
  }

  // ---- algorithms ----------------------------------------------------------------
  // built in: 0 null, 1 ed25519, 2 secp256k1.  Size -1: any length.
  // 130 to 133 and 255 are algorithms the drivers register themselves, 131 to 133 with the sizes of 1, 2 and 0.
  pure def known(id: int): bool = id >= 0 and id <= 2 or id >= 130 and id <= 133 or id == 255
  pure def sizedAs(id: int): int = if (id == 131) 1 else if (id == 132) 2 else id
  pure def pubSize(x: int): int = {
    pure val id = sizedAs(x)
    if (id == 1) 32 else if (id == 2) 33 else if (id == 130) 5 else if (id == 255) 255 else 0
  }
  pure def prvSize(x: int): int = {
    pure val id = sizedAs(x)
    if (id == 1) 64 else if (id == 2) 32 else if (id == 130) 7 else if (id == 255) 256 else 0
  }
  pure def sigSize(x: int): int = {
    pure val id = sizedAs(x)
    if (id == 1) 64 else if (id == 130) 3 else if (id == 2 or id == 255) -1 else 0
  }
  // what: 0 public key, 1 private key, 2 signature
  pure def sizeOf(what: int, id: int): int =
    if (what == 0) pubSize(id) else if (what == 1) prvSize(id) else sigSize(id)

  // ---- keys -------------------------------------------------------------------------
  type Val = { ok: bool, id: int, key: Bytes, extra: Bytes, rest: int }
  pure val NOVAL: Val = { ok: false, id: 0, key: EMPTY, extra: EMPTY, rest: 0 }
  pure def packKey(key: Bytes, extra: Bytes): Bytes = cat3(mk(1, key.n), key, extra)

  // binary form of a value (what = 0, 1: key with extra; 2: signature)
  pure def encVal(what: int, id: int, key: Bytes, extra: Bytes): Bytes =
    encContainer(id, if (what == 2) key else packKey(key, extra))

  // decode the binary form; rest is the number of bytes consumed
  pure def decVal(what: int, b: Bytes): Val = {
    pure val c = decContainer(b)
    if (not(c.ok) or not(known(c.id))) NOVAL
    else if (what == 2)
      (if (sigSize(c.id) >= 0 and c.data.n != sigSize(c.id)) NOVAL
       else { ok: true, id: c.id, key: c.data, extra: EMPTY, rest: c.rest })
    else if (c.data.n == 0)
      (if (sizeOf(what, c.id) != 0) NOVAL else { ok: true, id: c.id, key: EMPTY, extra: EMPTY, rest: c.rest })
    else {
      pure val lk = at(c.data, 0)
      if (c.data.n < 1 + lk or lk != sizeOf(what, c.id)) NOVAL
      else { ok: true, id: c.id, key: sub(c.data, 1, 1 + lk), extra: drop(c.data, 1 + lk), rest: c.rest }
    }
  }

  // ---- text ----------------------------------------------------------------------------
  pure val NPUB: Bytes = { n: 4, v: 0x6e707562 }
  pure val NPVT: Bytes = { n: 4, v: 0x6e707674 }
  pure def prefixOf(what: int): Bytes = if (what == 0) NPUB else if (what == 1) NPVT else EMPTY

  // text of binary form b whose SHA-224 is h
  pure def textOf(what: int, b: Bytes, h: Bytes): Bytes = cat(prefixOf(what), encode(wrap(b, h)))

  // the wrapped bytes inside a text: n = -1 when prefix or base32 is wrong
  pure def bodyOf(what: int, text: Bytes): Bytes = {
    pure val p = prefixOf(what)
    if (not(hasPrefix(text, p))) NOMSG else {
      pure val d = decode(drop(text, p.n))
      if (d.ok) d.out else NOMSG
    }
  }
  // message inside the text, before the checksum itself is checked
  pure def messageOf(what: int, text: Bytes): Bytes = {
    pure val b = bodyOf(what, text)
    if (b.n < 0) NOMSG else candidate(b)
  }
  // full decoding of a text; (fact message, fact hash) is a SHA-224 fact for the embedded message
  pure def decText(what: int, text: Bytes, h: Bytes): Val = {
    pure val b = bodyOf(what, text)
    if (b.n < 0) NOVAL else {
      pure val m = candidate(b)
      if (m.n < 0 or wrap(m, h) != b) NOVAL else {
        pure val v = decVal(what, m)
        if (v.ok and v.rest == m.n) v else NOVAL
      }
    }
  }
  // does decoding this text need a SHA-224 fact (for messageOf)?
  pure def needsHash(what: int, text: Bytes): bool = messageOf(what, text).n >= 0
}
