// Recorded calls on rate tables, EAI and weighted average age (C24, C25, C26).
// Tables come as: number of rows, then age and rate of each.
module tv_eai {
  import bytes.* from "./bytes"
  import numeric.* from "./numeric"
  import rates.* from "./rates"
  import eai.* from "./eai"

  pure def tableFrom(r: List[int], p: int): List[Row] =
    range(0, r[p]).foldl(List(), (acc, i) => acc.append({ age: r[p + 1 + 2 * i], rate: r[p + 2 + 2 * i] }))
  pure def piecesFrom(r: List[int], p: int): List[Piece] =
    range(0, r[p]).foldl(List(), (acc, i) => acc.append({ dur: r[p + 1 + 2 * i], rate: r[p + 2 + 2 * i] }))
  pure def after(r: List[int], p: int): int = p + 1 + 2 * r[p]

  // [1, from, to, offset, freeze, status, table, pieces, table unchanged]
  // (a freeze counts by its magnitude)
  pure def vSlice(given: List[int]): int = {
    pure val r = given.replaceAt(4, if (given[4] < 0) -given[4] else given[4])
    pure val t = tableFrom(r, 6)
    pure val q = after(r, 6)
    if (r[5] != 0) -1
    else {
      pure val ps = piecesFrom(r, q)
      if (not(sorted(t))) -900
      else if (not(isSlice(t, r[1], r[2], r[3], r[4], ps))) -2
      else if (r[after(r, q)] != 1) -3
      else if (not(isSlice(t, r[1], r[2], r[3], r[4], pieces(t, r[1], r[2], r[3], r[4])))) -901   // the specification checks itself
      else if (r[2] <= r[1]) 10
      else if (r[4] == 0) 20 + imin(ps.length(), 4)
      else if (r[2] + r[3] - r[4] < r[1] + r[3]) 30
      else 30 + imin(ps.length(), 4)
    }
  }
  // [2, point, status, rate, table]
  pure def vRateAt(r: List[int]): int =
    if (r[2] != 0) -11 else if (r[3] != rateAt(tableFrom(r, 4), r[1])) -12 else 40
  // [3, balance, now, last, waa, locked, notice, bonus, on, fix, status, result, table]
  pure def vEai(r: List[int]): int = {
    pure val l = { locked: r[5] == 1, notice: r[6], bonus: r[7], on: r[8] }
    pure val w = calculate(r[1], r[2], r[3], r[4], l, tableFrom(r, 12), r[9] == 1)
    if (r[10] >= 2) -21
    else if ((w < 0) != (r[10] == 1)) -22
    else if (w < 0) 50
    else if (w != r[11]) -23
    else if (not(l.locked)) 51 else if (l.on < 0) 52 else if (l.on >= r[2]) 53 else if (r[3] > l.on) 54 else 55
  }
  // [4, waa, now, locked, notice, bonus, on, status, rate, table]
  pure def vRate(r: List[int]): int = {
    pure val l = { locked: r[3] == 1, notice: r[4], bonus: r[5], on: r[6] }
    if (r[7] != 0) -31
    else if (r[8] != currentRate(r[1], l, tableFrom(r, 9), r[2])) -32
    else if (not(l.locked)) 60 else if (l.on < 0) 61 else if (r[2] < l.on) 62 else 63
  }
  // [5, age, since, qty, balance, status, age after]
  pure def vAge(r: List[int]): int = {
    pure val w = newAge(r[1], r[2], r[3], r[4])
    if (r[5] >= 2) -41
    else if ((w.length() == 0) != (r[5] == 1)) -42
    else if (w.length() == 0) (if (r[6] == r[1]) 70 else -43)
    else if (r[6] != w[0]) -44
    else if (r[3] < 0) 71 else if (r[3] == 0) 72 else 73
  }
  pure def verdict(r: List[int]): int =
    if (r[0] == 1000) vMemory(r)
    else if (r[0] == 1) vSlice(r)
    else if (r[0] == 2) vRateAt(r)
    else if (r[0] == 3) vEai(r)
    else if (r[0] == 4) vRate(r)
    else if (r[0] == 5) vAge(r)
    else if (r[0] == 6) (if (tableFrom(r, 1) == DEFAULT and tableFrom(r, after(r, 1)) == BONUS) 80 else -51)   // the default tables
    else -999
}
