// Recorded calls of the arithmetic packages, judged by exact integer arithmetic (C22, C23).
module tv_num {
  import bytes.* from "./bytes"
  import numeric.* from "./numeric"

  // [1, type, operation, a, b, c, status, result, second result]
  pure def vArith(r: List[int]): int = {
    pure val w = checked(r[1], r[2], r[3], r[4], r[5])
    if (r[6] >= 2) -1
    else if ((w.length() == 0) != (r[6] == 1)) (if (r[6] == 0) -2 else -3)    // no error where there is no exact result / error where there is one
    else if (r[6] == 1) 10 + r[2]
    else if (w[0] != r[7]) -4
    else if (w.length() > 1 and w[1] != r[8]) -5
    else 20 + r[2]
  }
  // [2, type, numerator, denominator, status, result, status of numerator + 1, its result]
  pure def vExp(r: List[int]): int = {
    pure val n = r[2]
    pure val d = r[3]
    pure val valid = n >= 0 and d >= 1 and n <= d and 20 * d <= top(r[1])
    if (r[4] >= 2 or r[6] >= 2) -21
    else if (not(valid)) (if (r[4] == 0) -22 else 31)
    else {
      pure val e = d * expRatio(n, d)        // the true value in units of 1/SCALE
      pure val near = 10 * e > (top(r[1]) - 200) * SCALE   // the scaled sum does not fit the type
      if (r[4] == 1) (if (near) 32 else -23)
      else if (abs(r[5] * SCALE - e) > 3 * SCALE + 100 * d) -24
      else if (r[6] == 0 and n < d and r[7] < r[5]) -25
      else if (n * 100 > d * 22) 33 else 30
    }
  }
  // [4, a, b, status, Compare, Abs of a]: amounts; the smallest one has no absolute value
  pure def vAmounts(r: List[int]): int =
    if (r[3] != 0) -41
    else if (r[4] != (if (r[1] < r[2]) -1 else if (r[1] > r[2]) 1 else 0)) -42
    else if (r[1] != MinI64 and r[5] != abs(r[1])) -43
    else 50
  pure def verdict(r: List[int]): int =
    if (r[0] == 1000) vMemory(r)
    else if (r[0] == 1) vArith(r)
    else if (r[0] == 2) vExp(r)
    else if (r[0] == 3) (if (r[2] != 0) -31 else if (r[3] != lnInt(r[1])) -32 else 40)
    else if (r[0] == 4) vAmounts(r)
    else -999
}
