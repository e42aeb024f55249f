// Trace validation for base32, the checksum wrapper, and keys and signatures (C10 .. C14).
module tv_sig {
  import bytes.* from "./bytes"
  import b32.* from "./b32"
  import msgp.* from "./msgp"
  import sigcodec.* from "./sigcodec"
  import ec as ec from "./ec"
  import ed as ed from "./ed"

  pure def elide(t: Bytes): Bytes =   // the shorthand of a key: 8 characters ... 4 characters
    if (t.n <= 15) t else cat3(take(t, 8), mk(3, 0x2e2e2e), sub(t, t.n - 4, t.n))

  // [1, what, id, key, extra, raw status, marshal status, bin, prefix, prefix++msgp, text, m, sha224(m), msgsize,
  //  fullString, string, maybePublic, maybePrivate, KeyBytes, ExtraBytes, algorithm id, size, unchanged]
  pure def vEncode(r: List[int]): int = {
    pure val what = r[1]
    pure val id = r[2]
    pure val key = unwire(r[3])
    pure val extra = unwire(r[4])
    pure val sz = sizeOf(what, id)
    pure val rawOk = key.n == sz or (what == 2 and sz < 0)
    if (r[5] >= 2 or r[6] >= 2) -1
    else if (rawOk != (r[5] == 0)) -2
    else if (not(rawOk)) 10
    else if (unwire(r[18]) != key or unwire(r[19]) != extra or r[20] != id or r[21] != sz) -3
    else if ((what == 2 or key.n <= 255) != (r[6] == 0)) -4
    else if (r[6] == 1) 11
    else {
      pure val bin = encVal(what, id, key, extra)
      pure val text = textOf(what, bin, unwire(r[12]))
      if (unwire(r[7]) != bin) -5
      else if (unwire(r[9]) != cat(unwire(r[8]), bin)) -6
      else if (r[13] < bin.n) -7
      else if (unwire(r[11]) != bin) -901
      else if (unwire(r[10]) != text) -8
      else if (what != 2 and (unwire(r[14]) != text or unwire(r[15]) != elide(text))) -9
      else if ((r[16] == 1) != (what == 0) or (r[17] == 1) != (what == 1)) -10
      else if (r[22] != 1) -11
      else (if (what == 0) 12 else if (what == 1) 13 else 14) + (if (extra.n == 0) 0 else if (extra.n + key.n < 255) 3 else 6)
    }
  }

  // [2, what, form, input, m, sha224(m), ascii, status, id, key, extra, leftover, re-encoded, used object gives the same, IsZero, input unchanged]
  // form: 0 Unmarshal, 1 UnmarshalMsg, 2 UnmarshalText, 3 ParsePublicKey.., 4 ParseKey, 5 the facade's signature
  pure def vDecode(r: List[int]): int = {
    pure val b = unwire(r[3])
    pure val what = if (r[2] != 4) r[1] else if (hasPrefix(b, NPUB)) 0 else 1
    pure val m = if (r[2] >= 2) messageOf(what, b) else NOMSG
    if (r[7] >= 2) -21
    else if (r[15] != 1) -22
    else if (r[6] == 0 and r[2] >= 2) 20                 // text outside ASCII: only totality
    else if (m.n >= 0 and unwire(r[4]) != m) -902
    else {
      pure val v0 = if (r[2] == 0) decVal(what, b) else if (r[2] == 1) decVal(what, b)
        else if (m.n >= 0) decText(what, b, unwire(r[5])) else NOVAL
      pure val v = if (r[2] == 0 and v0.ok and v0.rest != b.n) NOVAL else v0
      if (v.ok != (r[7] == 0)) (if (v.ok) -23 else -24)
      else if (not(v.ok)) (if (r[2] < 2) 21 else if (m.n >= 0) 23 else 22)
      else if (r[1] != what) -25
      else if (r[8] != v.id or unwire(r[9]) != v.key or unwire(r[10]) != v.extra) -26
      else if (r[2] == 1 and r[11] != b.n - v.rest) -27
      else if (unwire(r[12]) != encVal(what, v.id, v.key, v.extra)) -28
      else if (r[13] != 1) -29
      else if (what != 2 and (r[14] == 1) != (v.id == 0 and v.key.n == 0 and v.extra.n == 0)) -30
      else 30 + r[2]
    }
  }

  // [3, m, sha224(m), out, unchanged]
  pure def vAddChecksum(r: List[int]): int = {
    pure val m = unwire(r[1])
    pure val out = unwire(r[3])
    if (r[4] != 1) -41
    else if (out != wrap(m, unwire(r[2]))) -42
    else if (out.n % 5 != 0 or at(out, 0) < 3 or at(out, 0) > 7) -43
    else 40 + at(out, 0)
  }
  // [4, b, m, sha224(m), ok, message, status]
  pure def vCheckChecksum(r: List[int]): int = {
    pure val b = unwire(r[1])
    pure val m = candidate(b)
    if (r[6] >= 2) -51
    else if (m.n >= 0 and unwire(r[2]) != m) -903
    else {
      pure val ok = m.n >= 0 and wrap(m, unwire(r[3])) == b
      if (ok != (r[4] == 1)) (if (ok) -52 else -53)
      else if (ok and unwire(r[5]) != m) -54
      else if (ok) 53 else if (m.n >= 0) 52 else 51
    }
  }
  // [5, data, text, unchanged] / [6, text, ascii, status, data] / [7, character, Index]
  pure def vB32enc(r: List[int]): int =
    if (unwire(r[2]) != encode(unwire(r[1]))) -61
    else if (r[3] != 1) -62 else 60
  pure def vB32dec(r: List[int]): int = {
    pure val d = decode(unwire(r[1]))
    if (r[3] >= 2) -71
    else if (r[2] == 0) 70
    else if (d.ok != (r[3] == 0)) (if (d.ok) -72 else -73)
    else if (d.ok and unwire(r[4]) != d.out) -74
    else if (d.ok) 71 else 72
  }
  pure def vIndex(r: List[int]): int =
    if (r[2] != idx(r[1])) -81 else if (r[2] < 0) 80 else 81

  // identified-data containers: [8, id, data, bytes, prefix, prefix++bytes, stream bytes, msgsize]
  pure def vCont(r: List[int]): int = {
    pure val e = encContainer(r[1], unwire(r[2]))
    if (unwire(r[3]) != e) -91
    else if (unwire(r[5]) != cat(unwire(r[4]), e)) -92
    else if (unwire(r[6]) != e) -93
    else if (r[7] < e.n) -94
    else 90
  }
  // [9, form, input, status, id, data, leftover]: form 0 bytes, 1 stream
  pure def vContDec(r: List[int]): int = {
    pure val b = unwire(r[2])
    pure val c = decContainer(b)
    if (r[3] >= 2) -95
    else if (c.ok != (r[3] == 0)) -96
    else if (not(c.ok)) 91
    else if (r[4] != c.id or unwire(r[5]) != c.data or r[6] != b.n - c.rest) -97
    else 92 + r[1]
  }
  // bare algorithm ids: [10, id, bytes, stream bytes, msgsize]; [11, form, input, status, id, leftover]
  pure def vId(r: List[int]): int =
    if (unwire(r[2]) != encUint(r[1]) or r[3] != r[2] or r[4] < encUint(r[1]).n) -101 else 101
  pure def vIdDec(r: List[int]): int = {
    pure val b = unwire(r[2])
    pure val p = uint8(b, 0)
    if (r[3] >= 2) -102
    else if ((p.pos >= 0) != (r[3] == 0)) -103
    else if (p.pos < 0) 102
    else if (r[4] != p.v or r[5] != b.n - p.pos) -104 else 103
  }
  // [12, what, id, key, extra, bin after Truncate, IsZero before, bin after Zeroize, IsZero after]
  pure def vWipe(r: List[int]): int =
    if (unwire(r[5]) != encVal(r[1], r[2], unwire(r[3]), EMPTY)) -111
    else if ((r[6] == 1) != (r[2] == 0 and unwire(r[3]).n == 0 and unwire(r[4]).n == 0)) -112
    else if (unwire(r[7]) != encVal(r[1], 0, EMPTY, EMPTY)) -113
    else if (r[8] != 1) -114 else 110

  // ---- signatures ------------------------------------------------------------
  // (r, s) of a signature text 30 len 02 len r 02 len s, strict = canonical DER
  type RS = { ok: bool, strict: bool, r: int, s: int }
  pure val NORS: RS = { ok: false, strict: false, r: 0, s: 0 }
  pure def derInt(b: Bytes): bool = b.n > 0 and at(b, 0) < 128 and (b.n == 1 or at(b, 0) != 0 or at(b, 1) >= 128)
  pure def rs(b: Bytes): RS =
    if (b.n < 8 or at(b, 0) != 0x30 or at(b, 2) != 2) NORS else {
      pure val len = at(b, 1)
      pure val lr = at(b, 3)
      if (len < 6 or len + 2 > b.n or lr == 0 or 4 + lr + 2 >= len + 2 or at(b, 4 + lr) != 2) NORS else {
        pure val ls = at(b, 5 + lr)
        if (ls == 0 or 6 + lr + ls != len + 2) NORS else {
          pure val rb = sub(b, 4, 4 + lr)
          pure val sb = sub(b, 6 + lr, 6 + lr + ls)
          { ok: true, strict: derInt(rb) and derInt(sb) and b.n == len + 2, r: rb.v, s: sb.v }
        }
      }
    }
  // 1 verifies, 0 does not, 2 not specified (a second spelling of a valid signature value)
  pure def expectVerify(pa: int, pubKey: Bytes, sa: int, sig: Bytes, h: Bytes): int =
    if (pa != sa) 0
    else if (pa >= 131 and pa <= 133) 1     // algorithms of the driver which take anything
    else if (pa == 2) {
      pure val x = rs(sig)
      if (not(x.ok)) 0
      else if (not(ec::ecdsa(pubKey, h.v, x.r, x.s))) 0
      else if (x.strict) 1 else 2
    }
    else if (pa == 1)
      (if (not(ed::canonical(pubKey))) 2 else if (ed::edVerify(pubKey, h, sig)) 1 else 0)
    else 0
  // [13, key algorithm, key, signature algorithm, signature, hash, must verify, result, Signature.Verify, after serialization]
  pure def vVerify(r: List[int]): int = {
    pure val e = expectVerify(r[1], unwire(r[2]), r[3], unwire(r[4]), unwire(r[5]))
    if (r[7] >= 2) -121
    else if (r[8] != r[7] or r[9] != r[7]) -122
    else if (e == 2) (if (r[6] == 1) -124 else 129)
    else if (e != r[7]) (if (e == 1) -123 else -125)
    else if (r[6] == 1 and e != 1) -124
    else if (e == 1) 120 + r[1] else if (r[1] != r[3]) 126 else 123 + (if (r[1] > 2) 2 else r[1])
  }
  // [15, public algorithm, public, private algorithm, private, result]
  pure def vMatch(r: List[int]): int = {
    pure val p = unwire(r[2])
    pure val q = unwire(r[4])
    pure val same =
      if (r[1] != r[3]) 0
      else if (r[1] == 2) (if (ec::pubOf(q) == p) 1 else 0)
      else if (r[1] == 1) (if (drop(q, 32) == p) 1 else 0)
      else 0
    if (same != r[5]) -131 else 130 + same
  }
  pure def verdict(r: List[int]): int =
    if (r[0] == 1000) vMemory(r)
    else if (r[0] == 1) vEncode(r)
    else if (r[0] == 2) vDecode(r)
    else if (r[0] == 3) vAddChecksum(r)
    else if (r[0] == 4) vCheckChecksum(r)
    else if (r[0] == 5) vB32enc(r)
    else if (r[0] == 6) vB32dec(r)
    else if (r[0] == 7) vIndex(r)
    else if (r[0] == 8) vCont(r)
    else if (r[0] == 9) vContDec(r)
    else if (r[0] == 10) vId(r)
    else if (r[0] == 11) vIdDec(r)
    else if (r[0] == 12) vWipe(r)
    else if (r[0] == 13) vVerify(r)
    else if (r[0] == 15) vMatch(r)
    else if (r[0] == 90) (if (r[1] == r[2]) 190 else -190)     // calls on zero-value objects
    else -999
}
