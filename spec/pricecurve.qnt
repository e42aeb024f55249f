// The price curve: phase 1 doubles fourteen times over 9999 blocks of 1000 ndau (10000 in the early chain),
// phases 2 and 3 follow a cubic, and after that the price is final.  Prices in nanocents.
module pricecurve {
  import bytes.* from "./bytes"

  pure val DOLLAR: int = 100000000000
  pure val UNIT: int = 100000000           // napu per ndau
  pure val BLOCK: int = 1000 * UNIT        // napu per block
  pure val P1: int = 10000
  pure val END: int = 30000
  pure val FINAL: int = 50045083 * (DOLLAR / 100)
  pure val SCALE: int = 1000000000000000

  // prices at the blocks 2^n - 1, and the ratio of successive blocks in units of 1/SCALE
  type Curve = { steps: int, anchors: List[int], ratio: int }
  pure val C9999: Curve = { steps: 9999, ratio: 1000970974193617, anchors: [
    100000000000, 100097097419, 100291575187, 100681665003, 101466402368, 103054274072, 106304953285,
    113117158227, 128079155775, 164201982670, 269884708015, 729084792015, 5320807694887, 283384837710462] }
  pure val C10000: Curve = { steps: 10000, ratio: 1000970877049078, anchors: [
    100000000000, 100097087704, 100291545986, 100681596605, 101466254658, 103053964027, 106304303320,
    113115764023, 128075986132, 164193839650, 269857914525, 728939964968, 5318693514199, 283159653540666] }

  pure def log2(x: int): int = range(1, 15).foldl(0, (acc, k) => if (x >= 2^k) k else acc)
  pure def rise(c: Curve, p: int): int = p * c.ratio / SCALE
  // from the anchor below, block by block
  pure def phase1(c: Curve, b: int): int =
    if (b == 0) c.anchors[0]
    else if (b == 1) c.anchors[1]
    else {
      pure val k = log2(b)
      range(0, b - 2^k + 1).foldl(c.anchors[k], (p, i) => rise(c, p))
    }
  // the price of the block after one whose price is p
  pure def phase1After(c: Curve, p: int, b: int): int =
    if (b <= 1 or 2^(log2(b)) == b) phase1(c, b) else rise(c, p)
  // -41633 - 8.286618 x + 0.00167424 x^2 - 2.654015e-8 x^3, each term in whole dollars
  pure def cubic(x: int): int =
    DOLLAR * (-41633 - x * 8286618 / 1000000 + x * x * 167424 / 100000000 - (x * x * x / 10000000) * 2654015 / 10000000)
  pure def priceAt(c: Curve, b: int): int = if (b <= P1) phase1(c, b) else if (b < END) cubic(b) else FINAL
  pure def priceAfter(c: Curve, p: int, b: int): int = if (b <= P1) phase1After(c, p, b) else if (b < END) cubic(b) else FINAL
  pure def phaseOf(b: int): int = if (b <= P1) 1 else if (b < END) 2 else 3

  // y is D * 2^(14 k / steps), rounded to a neighbouring integer
  pure def isPower(c: Curve, y: int, d: int, k: int): bool = {
    pure val want = 2^(14 * k) * d^(c.steps)
    (y - 1)^(c.steps) < want and want < (y + 1)^(c.steps)
  }
  pure def anchored(c: Curve): bool =
    range(0, 14).foldl(true, (acc, n) => acc and isPower(c, c.anchors[n], DOLLAR, 2^n - 1)) and isPower(c, c.ratio, SCALE, 1)
  pure def within(c: Curve, b: int): bool = {     // to one part in 10^7
    pure val y = phase1(c, b)
    pure val e = y / 10000000
    pure val want = 2^(14 * b) * DOLLAR^(c.steps)
    (y - e)^(c.steps) < want and want < (y + e)^(c.steps)
  }
  run anchorsTest = assert(anchored(C9999) and anchored(C10000))
  run accuracyTest = assert([2, 5, 100, 1023, 1024, 5000, 8191, 8192, 9999, 10000].foldl(true, (acc, b) => acc and within(C9999, b) and within(C10000, b)))
}
