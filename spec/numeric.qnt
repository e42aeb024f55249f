// Checked 64-bit arithmetic, the fixed-point exponential and the integer logarithm.
module numeric {
  import bytes.* from "./bytes"

  // t: 0 signed, 1 unsigned
  pure def fits(t: int, x: int): bool = if (t == 0) inI64(x) else inU64(x)
  pure def top(t: int): int = if (t == 0) MaxI64 else MaxU64

  pure val ADD = 0
  pure val SUB = 1
  pure val MUL = 2
  pure val DIV = 3
  pure val MOD = 4
  pure val DIVMOD = 5
  pure val MULDIV = 6

  // the mathematically exact results, none if there is no result (division by zero)
  pure def exact(op: int, a: int, b: int, c: int): List[int] =
    if (op == ADD) [a + b]
    else if (op == SUB) [a - b]
    else if (op == MUL) [a * b]
    else if (op == MULDIV) (if (c == 0) List() else [tdiv(a * b, c)])
    else if (b == 0) List()
    else if (op == DIV) [tdiv(a, b)]
    else if (op == MOD) [tmod(a, b)]
    else [tdiv(a, b), tmod(a, b)]
  // what the checked operation returns: the exact results if all of them fit, else nothing (an error)
  pure def checked(t: int, op: int, a: int, b: int, c: int): List[int] = {
    pure val x = exact(op, a, b, c)
    if (x.length() > 0 and x.select(y => not(fits(t, y))).length() == 0) x else List()
  }

  // e^(n/d) in units of 2^-SCALE, exact to within 100 units, for 0 <= n <= d
  pure val SCALE: int = 2^200
  pure def expRatio(n: int, d: int): int =
    range(1, 60).foldl((SCALE, SCALE), (st, k) => {
      pure val t = st._1 * n / (d * k)
      (t, st._2 + t)
    })._2

  // the documented fixed-point algorithm, exactly: the Taylor series in units of 1/(10 d), rounded at the end
  pure def expFrac(n: int, d: int): int = {
    pure val N = 10 * n
    pure val D = 10 * d
    pure val st = range(2, 22).foldl((N, 1, D + N), (a, k) => {
      pure val p = a._1 * N / D
      pure val f = a._2 * k
      (p, f, a._3 + p / f)
    })
    (st._3 + 5) / 10
  }

  // floor(e^k) for k = 0..44
  pure def expFloor(k: int): int =
    range(1, 300).foldl((SCALE, SCALE), (st, j) => {
      pure val t = st._1 * k / j
      (t, st._2 + t)
    })._2 / SCALE
  pure val STEPS: List[int] = range(0, 45).foldl(List(), (acc, k) => acc.append(expFloor(k)))
  // floor(ln x), -1 for 0: the powers of e are not whole except e^0
  pure def lnInt(x: int): int =
    if (x == 0) -1
    else range(1, 45).foldl(0, (acc, k) => if (x > STEPS[k]) k else acc)
}
