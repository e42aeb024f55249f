// Recorded binary encodings and decodings (C30).
module tv_wire {
  import bytes.* from "./bytes"
  import wire.* from "./wire"

  // [1, shape, prefix, status of MarshalMsg onto the prefix, result, status of EncodeMsg, result, Msgsize, value...]
  pure def vEncode(r: List[int]): int = {
    pure val b = unwire(r[4])
    pure val p = unwire(r[2])
    pure val x = read(r[1], b, p.n)
    if (r[3] != 0) -1
    else if (r[5] != 0) -2
    else if (not(hasPrefix(b, p))) -3
    else if (x.pos != b.n) -4                            // not well formed, or more than the value
    else if (x.v != r.slice(8, r.length())) -5
    else if (drop(b, p.n) != unwire(r[6])) -6            // the stream has the same
    else if (r[7] < b.n - p.n) -7
    else 10 + r[1]
  }
  // [2, shape, input, status of UnmarshalMsg, bytes left, status of DecodeMsg, bytes left, number of fields, value..., value...]
  pure def vDecode(r: List[int]): int = {
    pure val b = unwire(r[2])
    pure val x = read(r[1], b, 0)
    pure val n = r[7]
    if (r[3] >= 2) -11
    else if (r[5] >= 2) -12
    else if (x.pos < 0) (if (r[3] == 0) -13 else if (r[5] == 0) -14 else 30 + r[1])
    else if (r[3] != 0) -15
    else if (r[5] != 0) -16
    else if (r[4] != b.n - x.pos) -17
    else if (r[6] != b.n - x.pos) -18
    else if (n != x.v.length() or r.slice(8, 8 + n) != x.v) -19
    else if (r.slice(8 + n, r.length()) != x.v) -20
    else 20 + r[1]
  }
  // [3, status] a short input which claims an enormous number of rows, decoded in a process of its own
  pure def vClaim(r: List[int]): int = if (r[1] == 1) 40 else -30
  // [4, encoding, room, status, delivered] onto a stream that takes so many bytes and then fails
  pure def vFail(r: List[int]): int = {
    pure val e = unwire(r[1])
    pure val got = unwire(r[4])
    if (r[3] >= 2) -41
    else if (r[3] == 0 and got != e) -42
    else if (r[3] == 1 and r[2] >= e.n) -43
    else if (not(hasPrefix(e, got))) -44
    else 50 + r[3]
  }
  pure def verdict(r: List[int]): int =
    if (r[0] == 1000) vMemory(r)
    else if (r[0] == 1) vEncode(r) else if (r[0] == 2) vDecode(r) else if (r[0] == 3) vClaim(r) else if (r[0] == 4) vFail(r) else -999
}
