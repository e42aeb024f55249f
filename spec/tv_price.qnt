// Recorded prices (C27).
module tv_price {
  import bytes.* from "./bytes"
  import pricecurve.* from "./pricecurve"

  pure def curve(x: int): Curve = if (x == 0) C10000 else C9999
  // [1, curve (0: 10000), first block, number of errors, price of each block from there on]
  pure def vBlocks(r: List[int]): int = {
    pure val c = curve(r[1])
    pure val st = range(4, r.length()).foldl({ p: 0, was: 0, ok: true, mono: true }, (a, i) => {
      pure val b = r[2] + i - 4
      pure val p = if (i == 4) priceAt(c, b) else priceAfter(c, a.p, b)
      { p: p, was: r[i], ok: a.ok and r[i] == p,
        mono: a.mono and (i == 4 or phaseOf(b) != phaseOf(b - 1) or r[i] >= a.was) }
    })
    if (r[3] != 0) -1 else if (not(st.ok)) -2 else if (not(st.mono)) -3 else 10 + phaseOf(r[2])
  }
  // [2, curve, napu sold, status, price, price at the beginning of that block]
  pure def vUnit(r: List[int]): int =
    if (r[3] != 0) -11
    else if (r[4] != r[5]) -12
    else { pure val b = r[2] / BLOCK
      if (b > P1 and r[4] != priceAt(curve(r[1]), b)) -13 else 20 + phaseOf(b) }
  pure def near(x: int, y: int, digits: int): bool = abs(x - y) * 10^digits <= imax(abs(x), abs(y)) + 10^digits
  // the pieces of a purchase: (first napu, number of napu)
  pure def piecesOf(sold: int, qty: int): List[(int, int)] =
    range(0, qty / BLOCK + 2).foldl({ at: sold, left: qty, out: List() }, (st, i) => {
      pure val n = imin(st.left, BLOCK - st.at % BLOCK)
      if (st.left == 0 and i > 0) st else { at: st.at + n, left: st.left - n, out: st.out.append((st.at, n)) }
    }).out
  // [3, sold, quantity, status, total, (first napu, price) for each piece]: dollars * 10^6
  pure def vTotal(r: List[int]): int = {
    pure val ps = piecesOf(r[1], r[2])
    if (r[3] != 0) -21
    else if (r.length() != 5 + 2 * ps.length()) -921
    else if (range(0, ps.length()).foldl(false, (acc, i) => acc or r[5 + 2 * i] != ps[i]._1)) -922
    else {
      pure val want = range(0, ps.length()).foldl(0, (acc, i) => acc + (ps[i]._2 / UNIT) * r[6 + 2 * i])
      if (not(near(r[4], want, 6))) -23 else 30 + imin(ps.length(), 5)
    }
  }
  // [4, sold, a, b, status, total a, total b after a, total a+b]; sold + a ends a block
  pure def vAdd(r: List[int]): int =
    if (r[4] != 0) -31 else if ((r[1] + r[2]) % BLOCK != 0) -931
    else if (not(near(r[5] + r[6], r[7], 6))) -32 else 40
  // [5, block, status, approximate price * 10^6, exact price]
  pure def vApprox(r: List[int]): int = {
    pure val exact = r[4] / 100000        // in millionths of a dollar
    if (r[2] != 0) -41
    else if (r[1] < P1 and not(near(r[3], exact, 5))) -42
    else if (r[1] == P1 and not(near(r[3], exact, 2))) -43
    else if (r[1] > P1 and abs(r[3] - exact) > 6000000) -44
    else 50 + phaseOf(r[1])
  }
  // the lowest and highest price (in nanocents) that an approximate price at block b may be
  pure def slack(b: int, p: int): int = if (b == P1) p / 50 else if (b < P1) p / 100000 + 1 else if (b < END) 6 * DOLLAR else 1
  // [6, price asked in nanocents, status, ndau returned, status and result for a slightly higher price]
  // the block returned is the last one before the price is reached (0 and END - 1 at the ends)
  pure def vInverse(r: List[int]): int = {
    pure val b = r[3] / 1000
    pure val low = if (r[2] == 0 and b >= 0 and b < END) priceAt(C9999, b) else 0
    pure val high = if (r[2] == 0 and b >= 0 and b < END) priceAt(C9999, b + 1) else 0
    if (r[2] != 0 or r[4] != 0) -51
    else if (r[3] % 1000 != 0 or b < 0 or b >= END) -52
    else if (b > 0 and low - slack(b, low) > r[1]) -53
    else if (b < END - 1 and high + slack(b + 1, high) < r[1]) -54
    else if (r[5] < r[3]) -55
    else 60 + phaseOf(b)
  }
  pure def verdict(r: List[int]): int =
    if (r[0] == 1000) vMemory(r)
    else if (r[0] == 1) vBlocks(r) else if (r[0] == 2) vUnit(r) else if (r[0] == 3) vTotal(r)
    else if (r[0] == 4) vAdd(r) else if (r[0] == 5) vApprox(r) else if (r[0] == 6) vInverse(r) else -999
}
