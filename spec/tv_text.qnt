// Recorded printing and parsing (C28), and timestamps (C29).
module tv_text {
  import bytes.* from "./bytes"
  import text.* from "./text"

  pure def codes(w: int): List[int] = utf8(toList(unwire(w)))
  // 0 ndau 1 duration 2 rate 3 dollars 4 row
  pure def reading(kind: int, t: List[int]): List[int] =
    if (kind == 0) ndauOf(t) else if (kind == 1) durationOf(t) else if (kind == 2) rateOf(t) else if (kind == 3) dollarsOf(t) else rowOf(t)
  pure def wide(kind: int): int = if (kind == 4) 2 else 1

  // [1, kind, text, status, value(s), status of UnmarshalText, value]
  pure def vParse(r: List[int]): int = {
    pure val w = reading(r[1], codes(r[2]))
    pure val n = wide(r[1])
    if (r[3] >= 2) -1
    else if ((w.length() == 0) != (r[3] == 1)) (if (r[3] == 1) -2 else -3)
    else if (r[3] == 0 and r.slice(4, 4 + n) != w) -4
    else if (r[4 + n] != r[3] or (r[3] == 0 and r.slice(5 + n, 5 + 2 * n) != w)) -5
    else if (w.length() == 0) 10 + r[1] else 20 + r[1]
  }
  // [2, kind, value(s), status, text, MarshalText is the same, status of parsing it back, value(s)]
  pure def vPrint(r: List[int]): int = {
    pure val n = wide(r[1])
    pure val t = codes(r[3 + n])
    pure val w = if (r[1] == 0) signedNdau(t) else reading(r[1], t)
    if (r[2 + n] != 0) -11
    else if (w != r.slice(2, 2 + n)) -12
    else if (r[4 + n] != 1) -13
    else if (r[1] == 0 and r[2] < 0) 35
    else if (r[5 + n] != 0) -14
    else if (r.slice(6 + n, 6 + 2 * n) != w) -15
    else 30 + r[1]
  }
  // [3, t, d, t.Add(d), t.Sub(d), status]
  pure def vAdd(r: List[int]): int =
    if (r[5] != 0) -21 else if (r[3] != clamp(r[1] + r[2])) -22 else if (r[4] != clamp(r[1] - r[2])) -23
    else if (r[1] + r[2] < 0 or r[1] - r[2] < 0) 41 else if (r[1] + r[2] > MaxI64 or r[1] - r[2] > MaxI64) 42 else 40
  // [4, t, o, t.Since(o), t.Compare(o), status]
  pure def vSince(r: List[int]): int =
    if (r[5] != 0) -31 else if (r[3] != r[1] - r[2]) -32
    else if (r[4] != (if (r[1] < r[2]) -1 else if (r[1] > r[2]) 1 else 0)) -33 else 50
  // [5, t, status, text, MarshalText is the same, status of parsing, value, TimestampFrom(AsTime)]
  pure def vTime(r: List[int]): int = {
    pure val t = codes(r[3])
    if (r[2] != 0) -41
    else if (not(isTimeShape(t)) or timeOf(t) != [r[1]]) -42
    else if (r[4] != 1) -43
    else if (r[5] != 0 or r[6] != r[1]) -44
    else if (r[7] != r[1]) -45
    else 60
  }
  // [6, text, status, value, status of UnmarshalText, value]
  pure def vParseTime(r: List[int]): int = {
    pure val t = codes(r[1])
    pure val w = if (isTimeShape(t)) timeOf(t) else List()
    if (r[2] >= 2 or r[4] != r[2] or (r[2] == 0 and r[5] != r[3])) -51
    else if (not(isTimeShape(t))) (if (not(noTime(t))) 72 else if (r[2] == 0) -52 else 71)
    else if (w.length() == 0) (if (r[2] == 1) 73 else -53)
    else if (w[0] > MAXTIME) 74       // beyond the documented range
    else if (r[2] != 0) -54
    else if (r[3] != w[0]) -55
    else 70
  }
  // [7, seconds and nanoseconds from 2000-01-01 of a time, status of TimestampFrom, value]
  pure def vFrom(r: List[int]): int = {
    pure val ns = r[1] * 1000000000 + r[2]
    if (r[3] >= 2) -61
    else if (ns > MaxI64) 82
    else if (ns < 0) (if (r[3] == 1) 81 else -62)
    else if (r[3] != 0) -63
    else if (r[4] != ns / 1000) -64
    else 80
  }
  // [8, percent, status, rate] RateFromPercent
  pure def vPercent(r: List[int]): int =
    if (r[2] != 0) -71 else if (r[1] * 10000000000 > MaxI64) 91 else if (r[3] != r[1] * 10000000000) -72 else 90
  // [9, microseconds, status, TimeDuration in nanoseconds, DurationFrom of that]
  pure def vToGo(r: List[int]): int =
    if (r[2] != 0) -81
    else if (abs(r[1]) > MaxI64 / 1000) 102       // beyond the range of Go durations
    else if (r[3] != tdiv(r[1], 1000) * 1000000) -82
    else if (r[4] != tdiv(r[1], 1000) * 1000) -83
    else if (r[1] % 1000 == 0) 100 else 101
  // [10, nanoseconds, status, DurationFrom, TimeDuration of that]
  pure def vOfGo(r: List[int]): int =
    if (r[2] != 0) -91
    else if (r[3] != tdiv(r[1], 1000000) * 1000) -92
    else if (r[4] != tdiv(r[1], 1000000) * 1000000) -93
    else 110
  // [11, seconds and nanoseconds of one time, of another, statuses, values]: order is kept
  pure def vOrder(r: List[int]): int = {
    pure val a = r[1] * 1000000000 + r[2]
    pure val b = r[3] * 1000000000 + r[4]
    if (r[5] >= 2 or r[6] >= 2) -101
    else if (a > MaxI64 or b > MaxI64 or r[5] == 1 or r[6] == 1) 121
    else if ((a <= b and r[7] > r[8]) or (a >= b and r[7] < r[8])) -102
    else 120
  }
  // [12, t, o, t.Compare(o), status]
  pure def vCompare(r: List[int]): int =
    if (r[4] != 0) -111 else if (r[3] != (if (r[1] < r[2]) -1 else if (r[1] > r[2]) 1 else 0)) -112
    else if (r[1] < 0 or r[2] < 0) 131 else 130
  pure def verdict(r: List[int]): int =
    if (r[0] == 1000) vMemory(r)
    else if (r[0] == 1) vParse(r) else if (r[0] == 2) vPrint(r) else if (r[0] == 3) vAdd(r) else if (r[0] == 4) vSince(r)
    else if (r[0] == 5) vTime(r) else if (r[0] == 6) vParseTime(r) else if (r[0] == 7) vFrom(r) else if (r[0] == 8) vPercent(r)
    else if (r[0] == 9) vToGo(r) else if (r[0] == 10) vOfGo(r) else if (r[0] == 11) vOrder(r) else if (r[0] == 12) vCompare(r) else -999
}
