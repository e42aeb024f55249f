// Which documented error a refused call reports (C37).
// Error values: 0 none, 1 another error, 2 ErrOverflow, 3 ErrDivideByZero, 4 ErrMath,
// 10 ErrDeriveHardFromPublic, 11 ErrDeriveBeyondMaxDepth, 12 ErrNotPrivExtKey, 13 ErrInvalidHardenedIndex, 14 ErrInvalidSeedLen,
// 15 ErrUnusableSeed, 16 ErrBadChecksum, 17 ErrInvalidKeyLen, 18 ErrInvalidKeyEncoding, 19 ErrInvalidChild,
// 20 the error of the entropy source itself, 21 io.EOF, 22 io.ErrUnexpectedEOF
module tv_err {
  import bytes.* from "./bytes"
  import b32.* from "./b32"
  import ec.* from "./ec"
  import hd.* from "./hd"
  import numeric.* from "./numeric"

  // the error values that may be reported for a call, none if it is to succeed
  pure def arithErrs(t: int, op: int, a: int, b: int, c: int): Set[int] =
    if (exact(op, a, b, c).length() == 0) Set(3)
    else if (checked(t, op, a, b, c).length() > 0) Set()
    else if (op == DIV or op == MOD or op == DIVMOD) Set(2, 4)
    else Set(2)

  // one step of a derivation: n is the number as given, hard: asked for as a hardened child
  pure def stepErrs(priv: bool, depth: int, hard: bool, n: int): Set[int] = {
    pure val deep = if (depth >= 255) Set(11) else Set()
    pure val public = if (not(priv) and (hard or n >= HARD)) Set(10) else Set()
    // HardenedChild of a number that is hardened already
    pure val index = if (hard and n >= HARD) Set(13) else Set()
    deep.union(public).union(index)
  }
  // the first step that cannot be made decides
  pure def pathErrs(priv: bool, depth: int, els: List[int], hards: List[int]): Set[int] =
    range(0, els.length()).foldl(Set(), (acc, i) =>
      if (acc != Set()) acc else stepErrs(priv, depth + i, hards[i] == 1, els[i]))

  pure def oldErrs(text: Bytes, dsha: Bytes): Set[int] = {
    pure val d = decode(text)
    if (not(d.ok)) Set(18)
    else if (d.out.n != 80) Set(17)
    else if (sub(d.out, 76, 80) != take(dsha, 4)) Set(16)
    else if (oldParse(d.out, dsha) != NOKEY) Set()
    else if (at(d.out, 43) == 0) Set(15)
    else 1.to(22)                         // not a point of the curve: some error
  }

  // given the allowed errors, the outcome and the reported value
  pure def judge(errs: Set[int], status: int, code: int, ok: int, bad: int): int =
    if (status >= 2) -1
    else if (errs == Set()) (if (status == 0 and code == 0) ok else -2)
    else if (status == 0) -3
    else if (not(errs.contains(code))) -4
    else bad

  // [1, type, operation, a, b, c, status, error]
  pure def vArith(r: List[int]): int =
    judge(arithErrs(r[1], r[2], r[3], r[4], r[5]), r[6], r[7], 10, 20 + 10 * r[7] + r[2])
  // [2, key text, call, number, status, error]: 0 Child, 1 HardenedChild, 2 SPrivKey, 3 ECPrivKey, 4 Sign (facade);
  // 10, 11: Child and HardenedChild of the facade, whose numbers are 31 bits
  pure def vKey(r: List[int]): int = {
    pure val k = parseTrusted(unwire(r[1]))
    pure val op = r[2]
    pure val errs =
      if (op >= 2 and op <= 4) (if (k.priv) Set() else Set(12))
      else stepErrs(k.priv, k.depth, op == 1 or op == 11, r[3])
    if (k == NOKEY or not(wellFormed(k))) -905
    else judge(errs, r[4], r[5], 100 + op, 120 + 20 * op + (if (errs == Set()) 0 else r[5] - 10))
  }
  // [3, call, length, status, error]: NewMaster and GenerateSeed of bip32 and key, NewKey of the facade
  pure def vSeed(r: List[int]): int =
    judge(if (r[2] >= 16 and r[2] <= 64) Set() else Set(14), r[3], r[4], 400 + r[1], 410 + r[1])
  // [4, call, text, double SHA-256 of the first 76 bytes, status, error]
  pure def vOldText(r: List[int]): int =
    judge(oldErrs(unwire(r[2]), unwire(r[3])), r[4], r[5], 430 + r[1], 440 + 30 * r[1] + r[5])
  // [5, length, bytes delivered, what the source reports then, status, error]
  pure def vSource(r: List[int]): int = {
    pure val errs =
      if (r[1] < 16 or r[1] > 64) Set(14)
      else if (r[2] >= r[1]) Set()
      else if (r[3] == 20) Set(20)
      else Set(21, 22)                 // the end of the data
    judge(errs, r[4], r[5], 500, 500 + r[5])
  }
  // [6, key text, call, status, error, number of elements, numbers..., hardened?...]
  pure def vPath(r: List[int]): int = {
    pure val k = parseTrusted(unwire(r[1]))
    pure val n = r[5]
    if (k == NOKEY or not(wellFormed(k))) -905
    else judge(pathErrs(k.priv, k.depth, r.slice(6, 6 + n), r.slice(6 + n, 6 + 2 * n)), r[3], r[4], 600 + r[2], 610 + 20 * r[2] + r[4] - 10)
  }
  pure def verdict(r: List[int]): int =
    if (r[0] == 1000) vMemory(r)
    else if (r[0] == 1) vArith(r)
    else if (r[0] == 2) vKey(r)
    else if (r[0] == 3) vSeed(r)
    else if (r[0] == 4) vOldText(r)
    else if (r[0] == 5) vSource(r)
    else if (r[0] == 6) vPath(r)
    else -999
}
