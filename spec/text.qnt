// The texts of amounts, durations, rates, dollars and times: what value a text denotes.
// A reading is a list: empty when the text is malformed or its value out of range, else the value.
module text {
  import bytes.* from "./bytes"

  pure def asciiSpace(c: int): bool = c == 32 or (c >= 9 and c <= 13)
  // white space of regular expressions: no vertical tab
  pure def reSpace(c: int): bool = c == 32 or c == 9 or c == 10 or c == 12 or c == 13
  pure def dropWhile(l: List[int], f: (int) => bool): List[int] = {
    pure val k = range(0, l.length()).foldl((true, 0), (st, i) => if (st._1 and f(l[i])) (true, i + 1) else (false, st._2))._2
    l.slice(k, l.length())
  }
  pure def rev(l: List[int]): List[int] = l.foldl(List(), (acc, x) => [x].concat(acc))
  pure def trimBy(l: List[int], f: (int) => bool): List[int] = rev(dropWhile(rev(dropWhile(l, f)), f))
  pure def digitsOnly(l: List[int]): bool = l.foldl(true, (acc, c) => acc and isDigit(c))
  pure def count(l: List[int], c: int): int = l.foldl(0, (acc, x) => if (x == c) acc + 1 else acc)
  pure def indexOf(l: List[int], c: int): int = range(0, l.length()).foldl(-1, (acc, i) => if (acc < 0 and l[i] == c) i else acc)
  pure def upto(l: List[int], c: int): List[int] = if (indexOf(l, c) < 0) l else l.slice(0, indexOf(l, c))
  pure def behind(l: List[int], c: int): List[int] = if (indexOf(l, c) < 0) List() else l.slice(indexOf(l, c) + 1, l.length())

  // UTF-8 to code points; [] for the whole if it is not UTF-8 (as a malformed marker: one negative number)
  pure def utf8(l: List[int]): List[int] = {
    pure val st = l.foldl({ need: 0, v: 0, lo: 0, out: List(), bad: false }, (s, c) =>
      if (s.need > 0) {
        if (c < 128 or c >= 192) { ...s, bad: true }
        else {
          pure val v = s.v * 64 + c - 128
          if (s.need == 1) (if (v < s.lo or (v >= 0xd800 and v < 0xe000) or v > 0x10ffff) { ...s, bad: true } else { ...s, need: 0, out: s.out.append(v) })
          else { ...s, need: s.need - 1, v: v }
        }
      }
      else if (c < 128) { ...s, out: s.out.append(c) }
      else if (c < 192) { ...s, bad: true }
      else if (c < 224) { ...s, need: 1, v: c - 192, lo: 128 }
      else if (c < 240) { ...s, need: 2, v: c - 224, lo: 2048 }
      else if (c < 248) { ...s, need: 3, v: c - 240, lo: 65536 }
      else { ...s, bad: true })
    if (st.bad or st.need > 0) [-1] else st.out
  }

  // a decimal number with at most `places` places (and at least `least` if there is a point), in units of 10^-places
  pure def decimal(l: List[int], places: int, least: int, emptyWhole: bool): List[int] = {
    pure val w = upto(l, 46)
    pure val f = behind(l, 46)
    pure val point = indexOf(l, 46) >= 0
    if (not(digitsOnly(w)) or not(digitsOnly(f)) or (w.length() == 0 and not(emptyWhole))) List()
    else if (point and (f.length() < least or f.length() > places)) List()
    else [decValue(w) * 10^places + decValue(f) * 10^(places - f.length())]
  }
  pure def bounded(r: List[int], lo: int, hi: int): List[int] =
    if (r.length() > 0 and r[0] >= lo and r[0] <= hi) r else List()

  // C28: the readings, from code points ------------------------------------------------------
  pure def ndauOf(t: List[int]): List[int] = bounded(decimal(trimBy(t, reSpace), 8, 1, true), 0, MaxI64)
  pure def rateOf(t: List[int]): List[int] = {
    pure val l = trimBy(t, reSpace)
    if (l.length() < 2 or l[l.length() - 1] != 37) List()
    else bounded(decimal(l.slice(0, l.length() - 1), 10, 1, false), 0, MaxI64)
  }
  pure def uniSpace(c: int): bool = asciiSpace(c) or c == 0x85 or c == 0xa0 or c == 0x1680 or (c >= 0x2000 and c <= 0x200a)
    or c == 0x2028 or c == 0x2029 or c == 0x202f or c == 0x205f or c == 0x3000
  pure def dollarsOf(t: List[int]): List[int] = {
    pure val l = trimBy(t, uniSpace).select(c => c != 44 and c != 95)
    pure val neg = l.length() > 0 and l[0] == 45
    pure val m = if (neg) l.slice(1, l.length()) else l
    pure val n = if (m.length() > 0 and m[0] == 36) m.slice(1, m.length()) else m
    pure val r = decimal(n, 11, 2, false)
    if (r.length() == 0) List() else bounded([if (neg) -r[0] else r[0]], MinI64, MaxI64)
  }

  // durations: [-][p] years months days [t hours minutes seconds microseconds], each optional, letters of either case
  pure val UNITS: List[int] = [365 * 86400000000, 30 * 86400000000, 86400000000, 0, 3600000000, 60000000, 1000000, 1]
  pure def fold1(c: int): int =
    if (c == 0x3bc or c == 0xb5 or c == 0x39c) 117      // the micro signs
    else if (c == 0x17f) 115                            // long s
    else lowerByte(c)
  // 0 years 1 months 2 days 3 t 4 hours 5 minutes 6 seconds 7 microseconds; 8: no unit
  pure def stageOf(c: int, time: bool): int =
    if (c == 121) 0 else if (c == 109) (if (time) 5 else 1) else if (c == 100) 2 else if (c == 104) 4
    else if (c == 115) 6 else if (c == 117) 7 else 8
  type D = { stage: int, n: int, v: int, total: int, ok: bool, micro: bool }
  pure def durationOf(t: List[int]): List[int] = {
    pure val l0 = t.foldl(List(), (acc, c) => acc.append(fold1(c)))
    pure val neg = l0.length() > 0 and l0[0] == 45
    pure val l1 = if (neg) l0.slice(1, l0.length()) else l0
    pure val l = if (l1.length() > 0 and l1[0] == 112) l1.slice(1, l1.length()) else l1
    pure val start: D = { stage: -1, n: 0, v: 0, total: 0, ok: true, micro: false }
    pure val st = l.foldl(start, (s, c) =>
      if (not(s.ok)) s
      else if (isDigit(c)) { ...s, n: s.n + 1, v: s.v * 10 + c - 48, ok: not(s.micro) and s.stage < 7, micro: false }
      else if (c == 116) { ...s, stage: 3, ok: s.n == 0 and s.stage < 3 }
      else if (s.micro and c == 115) { ...s, micro: false }
      else {
        pure val k = stageOf(c, s.stage >= 3)
        pure val fits = k < 8 and k > s.stage and k != 3 and (k < 3 or s.stage >= 3) and s.n > 0
          and (k == 0 or s.n <= (if (k == 7) 6 else 2))
        if (fits) { ...s, stage: k, n: 0, v: 0, total: s.total + s.v * UNITS[k], micro: k == 7 } else { ...s, ok: false }
      })
    if (not(st.ok) or st.n > 0) List() else bounded([if (neg) -st.total else st.total], MinI64, MaxI64)
  }
  // a row of a rate table, "duration:rate": both values
  pure def rowOf(t: List[int]): List[int] = {
    pure val d = durationOf(upto(t, 58))
    pure val r = rateOf(behind(t, 58))
    if (count(t, 58) != 1 or d.length() == 0 or r.length() == 0) List() else d.concat(r)
  }
  // a possibly negative amount, as it prints
  pure def signedNdau(t: List[int]): List[int] =
    if (t.length() > 0 and t[0] == 45) {
      pure val r = decimal(t.slice(1, t.length()), 8, 1, false)
      if (r.length() == 0 or r[0] == 0) List() else [-r[0]]
    } else decimal(t, 8, 1, false)

  // C29: times ------------------------------------------------------------------------------
  pure def leap(y: int): bool = (y % 4 == 0 and y % 100 != 0) or y % 400 == 0
  pure val MONTHS: List[int] = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
  pure def monthDays(y: int, m: int): int = if (m == 2 and leap(y)) 29 else MONTHS[m - 1]
  // days from 2000-01-01
  pure def dayNumber(y: int, m: int, d: int): int = {
    pure val p = y - 1
    pure val jan1 = 365 * (y - 2000) + (p / 4 - p / 100 + p / 400) - (1999 / 4 - 1999 / 100 + 1999 / 400)
    range(1, m).foldl(jan1, (acc, k) => acc + monthDays(y, k)) + d - 1
  }
  pure def isTimeShape(t: List[int]): bool =
    t.length() >= 20 and t[4] == 45 and t[7] == 45 and t[10] == 84 and t[13] == 58 and t[16] == 58 and t[t.length() - 1] == 90
      and range(0, 19).foldl(true, (acc, i) => acc and (i == 4 or i == 7 or i == 10 or i == 13 or i == 16 or isDigit(t[i])))
      and (t.length() == 20 or (t[19] == 46 and t.length() > 21 and digitsOnly(t.slice(20, t.length() - 1))))
  pure def numAt(t: List[int], i: int, n: int): int = decValue(t.slice(i, i + n))
  // microseconds from 2000 on; a list as before
  pure def timeOf(t: List[int]): List[int] = {
    pure val y = numAt(t, 0, 4)
    pure val m = numAt(t, 5, 2)
    pure val d = numAt(t, 8, 2)
    if (m < 1 or m > 12) List()
    else if (d < 1 or d > monthDays(y, m) or numAt(t, 11, 2) > 23 or numAt(t, 14, 2) > 59 or numAt(t, 17, 2) > 59) List()
    else if (y < 2000) List()
    else {
      pure val f = if (t.length() == 20) List() else t.slice(20, t.length() - 1)
      pure val us = decValue(f.concat([48, 48, 48, 48, 48, 48]).slice(0, 6))
      [(((dayNumber(y, m, d) * 24 + numAt(t, 11, 2)) * 60 + numAt(t, 14, 2)) * 60 + numAt(t, 17, 2)) * 1000000 + us]
    }
  }
  // texts that are certainly no time
  pure def noTime(t: List[int]): bool =
    t.length() < 19 or t[t.length() - 1] != 90 or not(digitsOnly(t.slice(0, 4))) or t[4] != 45
      or t.select(c => not(isDigit(c) or c == 45 or c == 58 or c == 84 or c == 90 or c == 46 or c == 44)).length() > 0
      or count(t, 84) != 1 or count(t, 90) != 1 or count(t, 45) != 2 or count(t, 58) != 2
  // the supported range: 2000 to 292 years on
  pure val MAXTIME: int = MaxI64 / 1000
  pure def clamp(x: int): int = if (x < 0) 0 else if (x > MaxI64) MaxI64 else x
}
