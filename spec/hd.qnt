// Hierarchical deterministic extended keys (C01 .. C06, C31, C32).
module hd {
  import bytes.* from "./bytes"
  import ec.* from "./ec"
  import sigcodec.* from "./sigcodec"

  // an extended key: private flag, key (32 or 33 bytes), chain code, depth, parent fingerprint, child number
  type XKey = { priv: bool, key: Bytes, cc: Bytes, depth: int, fp: int, num: int }
  pure val NOKEY: XKey = { priv: false, key: EMPTY, cc: EMPTY, depth: -1, fp: 0, num: 0 }
  pure val HARD: int = 2^31

  pure def extraOf(k: XKey): Bytes = cat4(mk(1, k.depth), mk(3, k.fp), mk(4, k.num), k.cc)
  pure def whatOf(k: XKey): int = if (k.priv) 1 else 0
  // binary form, and text form given SHA-224 of the binary form
  pure def binOf(k: XKey): Bytes = encVal(whatOf(k), 2, k.key, extraOf(k))
  pure def xtext(k: XKey, h: Bytes): Bytes = textOf(whatOf(k), binOf(k), h)

  pure def wellFormed(k: XKey): bool = and {
    k.key.n == (if (k.priv) 32 else 33), k.cc.n == 32, k.depth >= 0, k.depth <= 255 }

  pure def ofVal(priv: bool, v: Val): XKey =
    if (not(v.ok) or v.id != 2 or v.extra.n < 40) NOKEY
    else { priv: priv, key: v.key, cc: sub(v.extra, 8, 40), depth: at(v.extra, 0),
           fp: sub(v.extra, 1, 4).v, num: sub(v.extra, 4, 8).v }

  // parse the text of an extended key; h = SHA-224 of the embedded message
  pure def parse(text: Bytes, h: Bytes): XKey =
    if (hasPrefix(text, NPVT)) ofVal(true, decText(1, text, h))
    else if (hasPrefix(text, NPUB)) ofVal(false, decText(0, text, h))
    else NOKEY
  // message embedded in an extended key text (n = -1 if none)
  pure def xmessage(text: Bytes): Bytes =
    if (hasPrefix(text, NPVT)) messageOf(1, text)
    else if (hasPrefix(text, NPUB)) messageOf(0, text) else NOMSG
  // parse a text the implementation itself produced, ignoring the checksum (judged separately)
  pure def parseTrusted(text: Bytes): XKey = {
    pure val m = xmessage(text)
    if (m.n < 0) NOKEY else {
      pure val priv = hasPrefix(text, NPVT)
      pure val v = decVal(if (priv) 1 else 0, m)
      if (v.ok and v.rest == m.n) ofVal(priv, v) else NOKEY
    }
  }

  pure def pub(k: XKey): Bytes = if (k.priv) pubOf(k.key) else k.key
  pure def neuter(k: XKey, pubBytes: Bytes): XKey = { ...k, priv: false, key: pubBytes }

  // master key from I = HMAC-SHA512("ndau seed", seed)
  pure val MASTERKEY: Bytes = { n: 9, v: 0x6e6461752073656564 }
  pure def master(i: Bytes): XKey =
    if (not(validScalar(take(i, 32)))) NOKEY
    else { priv: true, key: take(i, 32), cc: drop(i, 32), depth: 0, fp: 0, num: 0 }

  // may child number n be derived from k at all?
  pure def mayDerive(k: XKey, n: int): bool =
    k.depth < 255 and (k.priv or n < HARD)
  // data that is HMACed under the chain code
  pure def childData(k: XKey, pubBytes: Bytes, n: int): Bytes =
    if (n >= HARD) cat3(mk(1, 0), k.key, mk(4, n)) else cat(pubBytes, mk(4, n))
  // child n, given I = HMAC-SHA512(chain code, childData) and the double SHA-256 of the public key
  pure def child(k: XKey, n: int, i: Bytes, pubSha: Bytes): XKey = {
    pure val il = take(i, 32)
    if (not(validScalar(il))) NOKEY
    else if (k.priv) {
      pure val s = (il.v + k.key.v) % N
      if (s == 0) NOKEY
      else { priv: true, key: mk(32, s), cc: drop(i, 32), depth: k.depth + 1, fp: take(pubSha, 3).v, num: n }
    }
    else {
      pure val q = decompress(k.key)
      pure val p = padd(pmul(il.v, G), q)
      if (q.z == 0 or p.z == 0) NOKEY
      else { priv: false, key: compress(p), cc: drop(i, 32), depth: k.depth + 1, fp: take(pubSha, 3).v, num: n }
    }
  }

  // old (pre October 2018) serialization: 76 bytes + 4 bytes of checksum
  // version 3 | depth 1 | fingerprint 3 | child number 4 | chain code 32 | key 33 | checksum 4
  pure def oldParse(d: Bytes, dsha: Bytes): XKey =
    if (d.n != 80 or sub(d, 76, 80) != take(dsha, 4)) NOKEY else {
      pure val kb = sub(d, 43, 76)
      pure val priv = at(kb, 0) == 0
      if (priv and not(validScalar(drop(kb, 1)))) NOKEY
      else if (not(priv) and not(onCurve(kb))) NOKEY
      else { priv: priv, key: if (priv) drop(kb, 1) else kb, cc: sub(d, 11, 43), depth: at(d, 3),
             fp: sub(d, 4, 7).v, num: sub(d, 7, 11).v }
    }
}
