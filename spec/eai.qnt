// EAI: ecological growth of an account, continuously compounded in fixed point; weighted average age.
module eai {
  import bytes.* from "./bytes"
  import numeric.* from "./numeric"
  import rates.* from "./rates"

  pure val YEAR: int = 1000000 * 60 * 60 * 24 * 365
  pure val DAY: int = 1000000 * 60 * 60 * 24
  pure val ONE: int = 1000000000000      // the rate denominator

  // an account may be locked; a notified lock opens at `on` (-1: not notified)
  type Lock = { locked: bool, notice: int, bonus: int, on: int }
  pure val NOLOCK: Lock = { locked: false, notice: 0, bonus: 0, on: -1 }

  // -1: not computable (a rate over the period of more than 100%)
  pure def factorOf(ps: List[Piece], bonus: int): int =
    ps.foldl(ONE, (f, p) => {
      pure val x = (p.rate + bonus) * p.dur / YEAR
      if (f < 0 or x > ONE) -1 else f * expFrac(x, ONE) / ONE
    })
  pure def plain(now: int, last: int, waa: int, l: Lock, t: List[Row]): int = {
    pure val from = imax(0, waa - (now - last))
    pure val offset = if (l.locked) l.notice else 0
    pure val freeze = if (l.locked and l.on >= 0) now - imax(0, l.on - l.notice) else 0
    factorOf(pieces(t, from, waa, offset, freeze), if (l.locked) l.bonus else 0)
  }
  pure def factor(now: int, last: int, waa: int, l: Lock, t: List[Row], fix: bool): int =
    if (l.locked and l.on >= 0 and l.on < now) {
      if (fix and last > l.on) plain(now, last, waa, NOLOCK, t)
      else {
        // the lock opened on the way: what was earned until then, compounded with what was earned since.
        // Without the fix this is so even if everything until the opening has been credited before (replay of early blocks).
        pure val before = plain(l.on, last, waa - (now - l.on), l, t)
        pure val after = plain(now, l.on, waa, NOLOCK, t)
        if (before < 0 or after < 0) -1 else before * after / ONE
      }
    } else plain(now, last, waa, l, t)

  // -1: an error
  pure def calculate(balance: int, now: int, last: int, waa: int, l: Lock, t: List[Row], fix: bool): int = {
    pure val f = factor(now, last, waa, l, t, fix)
    pure val e = balance * (f - ONE) / ONE
    if (f < 0 or not(inI64(e))) -1 else e
  }

  // the rate an account earns at this moment
  pure def currentRate(waa: int, l: Lock, t: List[Row], now: int): int =
    if (not(l.locked)) rateAt(t, waa)
    else if (l.on < 0) rateAt(t, waa + l.notice) + l.bonus
    else if (now < l.on) rateAt(t, waa + (l.on - now)) + l.bonus
    else rateAt(t, waa)

  // weighted average age after `since` and a transfer of qty to a balance; [] = overflow
  pure def newAge(age: int, since: int, qty: int, balance: int): List[int] = {
    pure val a = age + since
    pure val nb = balance + qty
    if (not(inI64(a))) List()
    else if (qty < 0) [a]
    else if (not(inI64(nb))) List()
    else if (nb <= 0) [a]
    else { pure val w = tdiv(a * balance, nb) if (inI64(w)) [w] else List() }
  }

  // the documented default tables
  pure val DEFAULT: List[Row] = range(1, 10).foldl(List(), (acc, i) => acc.append({ age: i * 30 * DAY, rate: (i + 1) * ONE / 100 }))
  pure val BONUS: List[Row] = [
    { age: 90 * DAY, rate: ONE / 100 }, { age: 180 * DAY, rate: 2 * ONE / 100 }, { age: YEAR, rate: 3 * ONE / 100 },
    { age: 2 * YEAR, rate: 4 * ONE / 100 }, { age: 3 * YEAR, rate: 5 * ONE / 100 }]
}
