// Trace validation for extended keys (C01 .. C05, C31, C32).
// Hash facts (HMAC-SHA512, SHA-256, SHA-224) come with their inputs; the specification computes the
// inputs itself and compares.  Codes <= -900: the recorder's fact does not fit (an error of the machinery).
module tv_hd {
  import bytes.* from "./bytes"
  import b32.* from "./b32"
  import ec.* from "./ec"
  import sigcodec.* from "./sigcodec"
  import hd.* from "./hd"
  import path.* from "./path"
  import ed as ed from "./ed"

  // text of an implementation object against the specified key: 0 = same
  pure def sameText(k: XKey, text: Bytes, m: Bytes, h: Bytes): int =
    if (xmessage(text) != binOf(k)) -5
    else if (m != binOf(k)) -901
    else if (text != xtext(k, h)) -6 else 0

  // observable fields of an object: [bytes, pubBytes, priv, depth, fp] at position i
  pure def sameFields(k: XKey, pubK: Bytes, r: List[int], i: int): int =
    if (unwire(r[i]) != k.key) -7
    else if (unwire(r[i+1]) != pubK) -8
    else if ((r[i+2] == 1) != k.priv) -9
    else if (r[i+3] != k.depth) -10
    else if (r[i+4] != k.fp) -11 else 0

  // a derivation step with facts (data, out, pubIn, pubSha) at position i of r
  type Step = { code: int, key: XKey }
  pure def stepOf(k: XKey, n: int, r: List[int], i: int): Step = {
    pure val pb = pub(k)
    pure val data = childData(k, pb, n)
    if (n < 0) { code: 1, key: NOKEY }
    else if (not(mayDerive(k, n))) { code: 1, key: NOKEY }
    else if (not(k.priv) and not(onCurve(k.key))) { code: 1, key: NOKEY }
    else if (unwire(r[i]) != data) { code: -902, key: NOKEY }
    else if (unwire(r[i+2]) != pb) { code: -903, key: NOKEY }
    else {
      pure val c = child(k, n, unwire(r[i+1]), unwire(r[i+3]))
      if (c == NOKEY) { code: 1, key: NOKEY } else { code: 0, key: c }
    }
  }
  pure def leadingZeros(b: Bytes): int =
    if (b.v >= 256^(b.n - 1)) 0 else if (b.v >= 256^(b.n - 2)) 1 else 2

  // [1, parentText, hardened, n, status, childText, m, sha224, data, out, pubIn, pubSha, fields(5) 12..16, parentAfter 17]
  pure def vChild(r: List[int]): int = {
    pure val k = parseTrusted(unwire(r[1]))
    pure val n = if (r[2] == 1) (if (r[3] >= HARD) -1 else r[3] + HARD) else r[3]
    if (k == NOKEY or not(wellFormed(k))) -3
    else if (r[4] >= 2) -1
    else {
      pure val s = stepOf(k, n, r, 8)
      if (s.code < 0) s.code
      else if ((s.code == 0) != (r[4] == 0)) -2
      else if (r[17] != r[1]) -12
      else if (s.code == 1) (if (r[5] != 0) -4 else if (n < 0) 17 else if (k.depth == 255) 15 else 16)
      else {
        pure val t = sameText(s.key, unwire(r[5]), unwire(r[6]), unwire(r[7]))
        if (t != 0) t
        else {
          pure val f = sameFields(s.key, pub(s.key), r, 12)
          if (f != 0) f
          else (if (k.priv) (if (n >= HARD) 20 else 30) else 40) + leadingZeros(mk(32, s.key.key.v % 2^256)) + 3 * leadingZeros(mk(32, k.key.v % 2^256))
        }
      }
    }
  }
  // [2, seed, status, hmacKey, hmacOut, text, m, sha224, fields 8..12]
  pure def vMaster(r: List[int]): int = {
    pure val seed = unwire(r[1])
    pure val ok = seed.n >= 16 and seed.n <= 64
    if (r[2] >= 2) -1
    else if (not(ok)) (if (r[2] == 0) -2 else if (r[5] != 0) -4 else 52)
    else if (unwire(r[3]) != MASTERKEY) -904
    else {
      pure val k = master(unwire(r[4]))
      if ((k == NOKEY) != (r[2] == 1)) -2
      else if (k == NOKEY) 53
      else {
        pure val t = sameText(k, unwire(r[5]), unwire(r[6]), unwire(r[7]))
        if (t != 0) t else {
          pure val f = sameFields(k, pub(k), r, 8)
          if (f != 0) f else 50 + leadingZeros(k.key)
        }
      }
    }
  }
  // [3, text, spriv status, spriv key, spriv extra, ecpriv status, ecpriv bytes, ecpub status, ecpub bytes,
  //     spub status, spub key, spub extra, fields 12..16, public status, publicText, m, h]
  pure def vConvert(r: List[int]): int = {
    pure val k = parseTrusted(unwire(r[1]))
    if (k == NOKEY or not(wellFormed(k))) -3
    else {
      pure val pb = pub(k)
      pure val st = if (k.priv) 0 else 1
      pure val valid = onCurve(pb)
      if (r[2] != st or r[5] != st) -61
      else if (k.priv and (unwire(r[3]) != k.key or unwire(r[4]) != extraOf(k) or unwire(r[6]) != k.key)) -62
      else if (not(k.priv) and (r[3] != 0 or r[4] != 0 or r[6] != 0)) -63
      else if (r[7] != (if (valid) 0 else 1)) -64
      else if (valid and unwire(r[8]) != pb) -65
      else if (r[9] != 0 or unwire(r[10]) != pb or unwire(r[11]) != extraOf(k)) -66
      else {
        pure val f = sameFields(k, pb, r, 12)
        if (f != 0) f
        else if (r[17] != 0) -67
        else {
          pure val t = sameText(neuter(k, pb), unwire(r[18]), unwire(r[19]), unwire(r[20]))
          if (t != 0) t else if (k.priv) 60 else 61
        }
      }
    }
  }
  // [4, parentText, ppath, cpath, status, resultText, m, sha224, parentAfter, nsteps, (data, out, pubIn, pubSha)*]
  pure def vPath(r: List[int]): int = {
    pure val k = parseTrusted(unwire(r[1]))
    pure val rem = remaining(unwire(r[2]), unwire(r[3]))
    if (k == NOKEY or not(wellFormed(k))) -3
    else if (r[4] >= 2) -1
    else if (r[8] != r[1]) -12
    else if (not(rem.ok)) (if (r[4] == 0) -2 else if (r[5] != 0) -4 else 70)
    else {
      pure val fin = range(0, rem.els.length()).foldl({ code: 0, key: k }, (st, i) =>
        if (st.code != 0) st
        else if (i < r[9] or not(mayDerive(st.key, childNumber(rem.els[i]))) or childNumber(rem.els[i]) < 0)
          stepOf(st.key, childNumber(rem.els[i]), r, 10 + 4 * i)
        else { code: -905, key: NOKEY })
      if (fin.code < 0) fin.code
      else if ((fin.code == 0) != (r[4] == 0)) -2
      else if (fin.code == 1) (if (r[5] != 0) -4 else 71)
      else {
        pure val t = sameText(fin.key, unwire(r[5]), unwire(r[6]), unwire(r[7]))
        if (t != 0) t else 72 + imin(rem.els.length(), 5)
      }
    }
  }
  // [5, text, m, sha224(m), status, outText, m2, sha224(m2), fields 8..12, ascii, used object?]
  pure def vParse(r: List[int]): int = {
    pure val text = unwire(r[1])
    pure val m = xmessage(text)
    if (r[4] >= 2) -1
    else if (r[13] == 0) (if (r[4] == 0) 81 else 80)     // text outside ASCII: only totality is specified
    else if (m.n >= 0 and unwire(r[2]) != m) -906
    else {
      pure val k = if (m.n >= 0) parse(text, unwire(r[3])) else NOKEY
      if ((k == NOKEY) != (r[4] == 1)) -82
      else if (k == NOKEY) (if (m.n >= 0) 83 else if (text.n >= 4 and bodyOf(2, drop(text, imin(4, text.n))).n >= 0) 84 else 82)
      else {
        pure val t = sameText(k, unwire(r[5]), unwire(r[6]), unwire(r[7]))
        if (t != 0) t else {
          pure val f = sameFields(k, if (k.priv and not(validScalar(k.key))) unwire(r[9]) else pub(k), r, 8)
          if (f != 0) f
          else if (r[5] == r[1]) 85 else 86
        }
      }
    }
  }
  // [6, text, sha256(sha256(first 76 bytes)) , status, outText, m2, sha224(m2), fields 7..11, ascii]
  pure def vOld(r: List[int]): int = {
    pure val d = decode(unwire(r[1]))
    if (r[3] >= 2) -1
    else if (r[12] == 0) 90
    else {
      pure val k = if (d.ok) oldParse(d.out, unwire(r[2])) else NOKEY
      if ((k == NOKEY) != (r[3] == 1)) -92
      else if (k == NOKEY) (if (not(d.ok)) 91 else if (d.out.n != 80) 92 else if (sub(d.out, 76, 80) != take(unwire(r[2]), 4)) 93
                            else if (at(d.out, 43) == 0) 94 else 95)
      else {
        pure val t = sameText(k, unwire(r[4]), unwire(r[5]), unwire(r[6]))
        if (t != 0) t else {
          pure val f = sameFields(k, pub(k), r, 7)
          if (f != 0) f else if (k.priv) 96 else 97
        }
      }
    }
  }
  // [7, what, algorithm id, key, extra, status, text, m, sha224, fields 9..13]   FromSignatureKey
  pure def vFromSig(r: List[int]): int = {
    pure val extra = unwire(r[4])
    pure val k = if (r[2] != 2 or extra.n < 40) NOKEY
      else ofVal(r[1] == 1, { ok: true, id: 2, key: unwire(r[3]), extra: extra, rest: 0 })
    if (r[5] >= 2) -1
    else if ((k == NOKEY) != (r[5] == 1)) -102
    else if (k == NOKEY) 100
    else {
      pure val t = sameText(k, unwire(r[6]), unwire(r[7]), unwire(r[8]))
      if (t != 0) t else {
        pure val f = sameFields(k, pub(k), r, 9)
        if (f != 0) f else 101
      }
    }
  }
  // [8, privText, nsteps, m, sha224, ntexts, numbers x nsteps, (data,out,pubIn,pubSha) x nsteps, texts x ntexts]
  // every way of interleaving "make public" into the derivation gives the same public key (C02)
  pure def vCommute(r: List[int]): int = {
    pure val k = parseTrusted(unwire(r[1]))
    pure val ns = r[2]
    if (k == NOKEY or not(wellFormed(k)) or not(k.priv)) -3
    else {
      pure val fin = range(0, ns).foldl({ code: 0, key: k }, (st, i) =>
        if (st.code != 0) st else stepOf(st.key, r[6 + i], r, 6 + ns + 4 * i))
      if (fin.code != 0) (if (fin.code < 0) fin.code else -907)
      else {
        pure val e = neuter(fin.key, pub(fin.key))
        pure val base = 6 + 5 * ns
        pure val t = sameText(e, unwire(r[base]), unwire(r[3]), unwire(r[4]))
        if (t != 0) t
        else if (range(0, r[5]).select(j => r[base + j] != r[base]).length() > 0) -112
        else 110 + imin(ns, 6)
      }
    }
  }
  // [9, length, nil source?, stream delivered before the source fails or ends, status, seed out, again, bytes left in the source]   GenerateSeed
  pure def vSeed(r: List[int]): int = {
    pure val stream = unwire(r[3])
    pure val okLen = r[1] >= 16 and r[1] <= 64
    if (r[4] >= 2) -1
    else if (not(okLen)) (if (r[4] == 0) -121 else 121)
    else if (r[2] == 1) (if (r[4] != 0 or unwire(r[5]).n != r[1] or r[5] == r[6]) -122 else 122)
    else if ((stream.n >= r[1]) != (r[4] == 0)) -123
    else if (r[4] == 0) (if (unwire(r[5]) != take(stream, r[1])) -124 else if (r[7] != stream.n - r[1]) -125 else 120)
    else 123
  }
  // [10, stream, status, public, private, hmacKey, hmacIn, hmacOut, again public, again private, Algorithm.Public(private), bytes left in the source]  secp256k1 key pair generation
  pure def vGenSecp(r: List[int]): int = {
    pure val stream = unwire(r[1])
    if (r[2] >= 2) -1
    else if (stream.n < 32) (if (r[2] == 0) -131 else 131)
    else if (unwire(r[5]) != MASTERKEY or unwire(r[6]) != take(stream, 32)) -908
    else {
      pure val k = master(unwire(r[7]))
      if ((k == NOKEY) != (r[2] == 1)) -132
      else if (k == NOKEY) 132
      else if (unwire(r[4]) != k.key) -133
      else if (unwire(r[3]) != pub(k)) -134
      else if (r[8] != r[3] or r[9] != r[4]) -135
      else if (r[10] != r[3]) -136
      else if (r[11] != stream.n - 32) -137
      else 130
    }
  }
  // the public key of an Ed25519 seed, given its SHA-512
  pure def edPublic(h: Bytes): int = {
    pure val x = ed::le(take(h, 32)) % 2^254
    ed::enc(ed::emul(x - x % 8 + 2^254, ed::BASE))
  }
  // [11, stream, status, public, private, seed, SHA-512, again public, again private, Algorithm.Public(private), bytes left in the source]  Ed25519
  pure def vGenEd(r: List[int]): int = {
    pure val stream = unwire(r[1])
    pure val seed = take(stream, 32)
    if (r[2] >= 2) -1
    else if (stream.n < 32) (if (r[2] == 0) -141 else 141)
    else if (unwire(r[5]) != seed) -909
    else if (r[2] != 0) -142
    else if (unwire(r[3]).n != 32 or ed::le(unwire(r[3])) != edPublic(unwire(r[6]))) -144
    else if (unwire(r[4]) != cat(seed, unwire(r[3]))) -143
    else if (r[7] != r[3] or r[8] != r[4]) -145
    else if (r[9] != r[3]) -146
    else if (r[10] != stream.n - 32) -147
    else 140
  }
  // bip32.NewMaster: [12, seed, status, hash key, hash, left half, right half]
  pure def vRawMaster(r: List[int]): int = {
    pure val seed = unwire(r[1])
    pure val k = if (seed.n >= 16 and seed.n <= 64) master(unwire(r[4])) else NOKEY
    if (r[2] >= 2) -141
    else if (unwire(r[3]) != MASTERKEY) -904
    else if ((k == NOKEY) != (r[2] == 1)) -142
    else if (k == NOKEY) 141
    else if (unwire(r[5]) != k.key or unwire(r[6]) != k.cc) -143
    else 140
  }
  // bip32.PrivateToPublic: [13, private key, status, result]
  pure def vRawPublic(r: List[int]): int = {
    pure val d = unwire(r[1])
    if (d.v == 0 or d.v >= N or d.n > 32) 151
    else if (r[2] != 0) -151
    else if (unwire(r[3]) != pubOf(d)) -152
    else 150
  }

  pure def verdict(r: List[int]): int =
    if (r[0] == 1000) vMemory(r)
    else if (r[0] == 1) vChild(r)
    else if (r[0] == 2) vMaster(r)
    else if (r[0] == 3) vConvert(r)
    else if (r[0] == 4) vPath(r)
    else if (r[0] == 5) vParse(r)
    else if (r[0] == 6) vOld(r)
    else if (r[0] == 7) vFromSig(r)
    else if (r[0] == 8) vCommute(r)
    else if (r[0] == 9) vSeed(r)
    else if (r[0] == 10) vGenSecp(r)
    else if (r[0] == 11) vGenEd(r)
    else if (r[0] == 12) vRawMaster(r)
    else if (r[0] == 13) vRawPublic(r)
    else -999
}
