// Recorded checksum calls (C34).
module tv_crc {
  import bytes.* from "./bytes"
  import crc.* from "./crc"

  // [1, data, status, Checksum16, data afterwards, SHA-256 of the data (fact), status, Checksum24, data afterwards]
  pure def vSum(r: List[int]): int = {
    pure val b = unwire(r[1])
    if (r[2] != 0 or r[6] != 0) -1
    else if (unwire(r[3]) != checksum16(b)) -2
    else if (unwire(r[7]) != take(unwire(r[5]), 3)) -3
    else if (r[4] != r[1] or r[8] != r[1]) -4
    else 10
  }
  // [2, data, candidate of two bytes, status, accepted, data afterwards, candidate afterwards]
  pure def vCheck(r: List[int]): int = {
    pure val good = unwire(r[2]) == checksum16(unwire(r[1]))
    if (r[3] != 0) -11
    else if (r[4] == 1 and not(good)) -12
    else if (r[4] == 0 and good) -13
    else if (r[5] != r[1] or r[6] != r[2]) -14
    else if (good) 20 else 21
  }
  // [3, data, damaged data, width of the damage in bits, status, accepted with the checksum of the undamaged data]
  pure def vDamage(r: List[int]): int =
    if (r[4] != 0) -21
    else if (r[1] == r[2]) -921
    else if (r[5] == 1) -22       // the lemmas of crc.qnt
    else 30
  pure def verdict(r: List[int]): int =
    if (r[0] == 1000) vMemory(r)
    else if (r[0] == 1) vSum(r) else if (r[0] == 2) vCheck(r) else if (r[0] == 3) vDamage(r) else -999
}
