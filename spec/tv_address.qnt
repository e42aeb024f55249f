// Trace validation for package address (C07, C08, C09): every recorded call must be one the
// specification allows.  verdict(r) >= 0: allowed, the number is the class of the case;
// verdict(r) < 0: not allowed, the number says which clause failed.
module tv_address {
  import bytes.* from "./bytes"
  import address.* from "./address"

  // [1, kind, datalen, sha256, status, text, kindOut, revalidates, deterministic]
  pure def vGenerate(r: List[int]): int = {
    pure val text = unwire(r[5])
    if (r[4] >= 2) -1                                        // panic or hang
    else if (mayGenerate(r[1], r[2]) != (r[4] == 0)) -2       // accepted / refused wrongly
    else if (r[8] != 1) -3                                   // not a function of its arguments
    else if (r[4] == 1) (if (text.n != 0) -4 else if (KINDS.contains(r[1])) 11 else 12)
    else if (text != generate(r[1], unwire(r[3]))) -5
    else if (not(accepts(text))) -6                          // cross-check of the specification itself
    else if (r[6] != r[1]) -7
    else if (r[7] != 0) -8
    else 10
  }
  // [2, text, status, out, kind]
  pure def vValidate(r: List[int]): int = {
    pure val t = unwire(r[1])
    pure val ok = accepts(t)
    if (r[2] >= 2) -21
    else if (ok != (r[2] == 0)) (if (ok) -22 else -23)
    else if (ok) (if (unwire(r[3]) != canonical(t)) -24 else if (r[4] != kindOf(t)) -25 else 20)
    else if (r[3] != 0) -26
    else if (t.n == 48) 21 else 22
  }
  // [3, text, status, String, MarshalText, Validate(text), kind]
  pure def vUnmarshal(r: List[int]): int = {
    pure val t = unwire(r[1])
    pure val ok = accepts(t)
    if (r[2] >= 2) -31
    else if (ok != (r[2] == 0)) (if (ok) -32 else -33)
    else if (not(ok)) (if (t.n == 48) 31 else 32)
    else if (unwire(r[3]) != canonical(t)) -34
    else if (r[4] != r[3]) -35
    else if (r[5] != r[3]) -36
    else if (r[6] != kindOf(t)) -37
    else if (t == canonical(t)) 30 else 33
  }
  // [4, typecode, value, status, result]
  pure def vParseKind(r: List[int]): int = {
    pure val k =
      if (r[1] == 0) kindOfName(unwire(r[2]))
      else if (r[1] == 3) kindOfByte(lowerByte(r[2]))
      else if (r[1] == 9) -1
      else kindOfByte(r[2])
    if (r[3] >= 2) -41
    else if ((k >= 0) != (r[3] == 0)) -42
    else if (k >= 0 and r[4] != k) -43
    else if (k >= 0) 40 else 41
  }
  pure def verdict(r: List[int]): int =
    if (r[0] == 1000) vMemory(r)
    else if (r[0] == 1) vGenerate(r)
    else if (r[0] == 2) vValidate(r)
    else if (r[0] == 3) vUnmarshal(r)
    else if (r[0] == 4) vParseKind(r)
    else if (r[0] == 5) (if ((r[2] == 1) == KINDS.contains(r[1])) 50 else -51)
    else if (r[0] == 9) (if (r[3] == 0) 90 else -91)   // exhaustive error sweep: nothing may be accepted
    else if (r[0] == 10) 91                          // how many words were screened
    else -99
}
