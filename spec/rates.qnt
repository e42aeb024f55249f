// Rate tables: the step function of age, and its slices over a period.
module rates {
  import bytes.* from "./bytes"

  // rows sorted by age; the rate holds from that age on
  type Row = { age: int, rate: int }
  type Piece = { rate: int, dur: int }

  pure def rateAt(t: List[Row], p: int): int = t.foldl(0, (acc, row) => if (row.age <= p) row.rate else acc)
  pure def sorted(t: List[Row]): bool = range(1, imax(1, t.length())).foldl(true, (acc, i) => acc and t[i - 1].age < t[i].age)

  // Over the ages from..to, seen offset ahead, and frozen since freeze before the end (0: not frozen):
  // the rate in force at the instant where the age is a.
  pure def effective(to_: int, offset: int, freeze: int, a: int): int = imin(a + offset, to_ + offset - freeze)
  pure def rateIn(t: List[Row], to_: int, offset: int, freeze: int, a: int): int = rateAt(t, effective(to_, offset, freeze, a))

  // the ages (strictly inside lo..hi) at which the rate may change
  pure def changes(t: List[Row], offset: int, lo: int, hi: int): List[int] =
    t.foldl(List(), (acc, row) => if (row.age - offset > lo and row.age - offset < hi) acc.append(row.age - offset) else acc)
  // is this rate the one in force everywhere in lo..hi
  pure def constantOver(t: List[Row], to_: int, offset: int, freeze: int, lo: int, hi: int, rate: int): bool =
    rateIn(t, to_, offset, freeze, lo) == rate
      and changes(t, offset, lo, hi).foldl(true, (acc, a) => acc and rateIn(t, to_, offset, freeze, a) == rate)

  // C24: do these pieces partition the period and carry the right rates?
  pure def isSlice(t: List[Row], from: int, to_: int, offset: int, freeze: int, ps: List[Piece]): bool =
    if (to_ <= from) ps == [{ rate: 0, dur: 0 }]
    else {
      pure val end = ps.foldl({ at: from, ok: true }, (st, p) =>
        { at: st.at + p.dur,
          ok: st.ok and p.dur >= 0 and (p.dur == 0 or (st.at + p.dur <= to_ and constantOver(t, to_, offset, freeze, st.at, st.at + p.dur, p.rate))) })
      end.ok and end.at == to_
    }

  // the slice the formula of EAI works on: one piece for each row of the table that is in force for a while
  pure def pieces(t: List[Row], from: int, to_: int, offset: int, freeze: int): List[Piece] =
    if (to_ <= from) [{ rate: 0, dur: 0 }]
    else {
      pure val notify = to_ + offset - freeze
      pure val n = t.length()
      // row i is in force from start(i); when frozen, the row of the notification stays in force
      pure val st = range(-1, n).foldl(List(), (acc, i) => {
        pure val lo = if (i < 0) from else imax(from, t[i].age - offset)
        pure val last = i == n - 1 or (freeze > 0 and t[i + 1].age > notify)
        pure val hi = if (last) to_ else imin(to_, t[i + 1].age - offset)
        pure val dead = freeze > 0 and i >= 0 and t[i].age > notify
        if (dead or hi <= lo) acc else acc.append({ rate: if (i < 0) 0 else t[i].rate, dur: hi - lo })
      })
      st
    }
}
