// Accounts on the chain: time passes, ndau move between accounts, accounts are locked, notified and opened, EAI is credited.
// Every step says what the numeric packages must compute for it (C24, C25, C26); saving and printing must not change anything (C28, C29, C30).
module account {
  import bytes.* from "./bytes"
  import numeric.* from "./numeric"
  import rates.* from "./rates"
  import eai.* from "./eai"
  const N: int                   // accounts
  const SPAN: int                // longest wait in days

  type Account = { born: int, bal: int, waa: int, at: int, last: int, lock: Lock }
  // kind of step, accounts, amount, whether it failed, what it shows
  type Out = { op: str, a: int, b: int, qty: int, err: bool, show: List[int] }

  var now: int
  var acct: int -> Account
  var out: Out
  var issued: int        // all that came in or was earned, less what went out
  var table: List[Row]

  pure val ACCTS = 0.to(N - 1)
  pure val START: int = 10 * YEAR
  pure val NOOUT: Out = { op: "start", a: 0, b: 0, qty: 0, err: false, show: List() }
  pure val TABLES: List[List[Row]] = [
    DEFAULT,
    List(),
    [{ age: 0, rate: ONE / 50 }],
    [{ age: DAY, rate: ONE / 20 }, { age: 90 * DAY, rate: ONE / 100 }, { age: 90 * DAY + 1, rate: ONE / 10 }, { age: YEAR, rate: 0 }, { age: 2 * YEAR, rate: 123456789012 }],
  ]

  def age(a: int): int = acct.get(a).waa + now - acct.get(a).at
  def sum: int = ACCTS.fold(0, (acc, i) => acc + acct.get(i).bal)

  action init = {
    nondet k = 0.to(3).oneOf()
    all {
      now' = START, issued' = 0, table' = TABLES[k],
      acct' = ACCTS.mapBy(i => { born: START, bal: 0, waa: 0, at: START, last: START, lock: NOLOCK }),
      out' = NOOUT,
    }
  }
  action same(o: Out): bool = all { now' = now, acct' = acct, out' = o, issued' = issued, table' = table }
  action set1(m: int -> Account, o: Out, more: int): bool = all { now' = now, acct' = m, out' = o, issued' = issued + more, table' = table }

  // the account after a movement of qty; [] if its age overflows
  def moved(a: int, qty: int): List[Account] = {
    val c = acct.get(a)
    val w = newAge(c.waa, now - c.at, qty, c.bal)
    if (w.length() == 0) List() else [{ ...c, waa: w[0], at: now, bal: c.bal + qty }]
  }

  action Wait = {
    nondet d = 0.to(SPAN).oneOf()
    nondet j = (-1).to(1).oneOf()
    all {
      now' = now + imax(0, d * DAY + j), acct' = acct, issued' = issued, table' = table,
      out' = { op: "wait", a: 0, b: 0, qty: imax(0, d * DAY + j), err: false, show: List() },
    }
  }
  // wait until something is due: an opening, the instant before or after it, a row of the table
  action WaitFor = {
    nondet a = ACCTS.oneOf()
    nondet k = 0.to(9).oneOf()
    nondet j = (-1).to(1).oneOf()
    val l = acct.get(a).lock
    val due = if (l.locked and l.on >= 0 and k < 5) l.on + j
      else if (table.length() > 0) { val row = table[k % table.length()] now + row.age - age(a) + j }
      else now + k * DAY
    all {
      now' = imax(now, due), acct' = acct, issued' = issued, table' = table,
      out' = { op: "wait", a: a, b: 0, qty: imax(now, due) - now, err: false, show: List() },
    }
  }
  action Deposit = {
    nondet a = ACCTS.oneOf()
    nondet m = 0.to(999).oneOf()
    nondet e = 0.to(15).oneOf()
    val q = m * 10^e
    val r = moved(a, q)
    if (sum + q > MaxI64 or r.length() == 0) same({ op: "idle", a: a, b: 0, qty: 0, err: false, show: List() })
    else set1(acct.set(a, r[0]), { op: "deposit", a: a, b: 0, qty: q, err: false, show: [r[0].waa] }, q)
  }
  action Withdraw = {
    nondet a = ACCTS.oneOf()
    nondet pct = 0.to(100).oneOf()
    val q = acct.get(a).bal * pct / 100
    val r = moved(a, -q)
    if (r.length() == 0) same({ op: "idle", a: a, b: 0, qty: 0, err: false, show: List() })
    else set1(acct.set(a, r[0]), { op: "withdraw", a: a, b: 0, qty: q, err: false, show: [r[0].waa] }, -q)
  }
  action Transfer = {
    nondet a = ACCTS.oneOf()
    nondet b = ACCTS.oneOf()
    nondet pct = 0.to(100).oneOf()
    val q = acct.get(a).bal * pct / 100
    val r = moved(a, -q)
    val s = moved(b, q)
    if (a == b or r.length() == 0 or s.length() == 0) same({ op: "idle", a: a, b: b, qty: 0, err: false, show: List() })
    else set1(acct.set(a, r[0]).set(b, s[0]), { op: "transfer", a: a, b: b, qty: q, err: false, show: [r[0].waa, s[0].waa] }, 0)
  }
  // an amount which does not fit together with the balance
  action Overflow = {
    nondet a = ACCTS.oneOf()
    nondet m = 0.to(2).oneOf()
    val q = MaxI64 - m
    if (acct.get(a).bal <= m) same({ op: "idle", a: a, b: 0, qty: 0, err: false, show: List() })
    else same({ op: "overflow", a: a, b: 0, qty: q, err: true, show: List() })
  }
  action LockUp = {
    nondet a = ACCTS.oneOf()
    nondet n = Set(0, 1, 30, 90, 91, 180, 365, 730).oneOf()
    nondet b = 0.to(5).oneOf()
    val c = acct.get(a)
    if (c.lock.locked) same({ op: "idle", a: a, b: 0, qty: 0, err: false, show: List() })
    else set1(acct.set(a, { ...c, lock: { locked: true, notice: n * DAY, bonus: b * ONE / 100, on: -1 } }),
      { op: "lock", a: a, b: 0, qty: n * DAY, err: false, show: [b * ONE / 100] }, 0)
  }
  action Notify = {
    nondet a = ACCTS.oneOf()
    val c = acct.get(a)
    if (not(c.lock.locked) or c.lock.on >= 0) same({ op: "idle", a: a, b: 0, qty: 0, err: false, show: List() })
    else set1(acct.set(a, { ...c, lock: { ...c.lock, on: now + c.lock.notice } }), { op: "notify", a: a, b: 0, qty: 0, err: false, show: [now + c.lock.notice] }, 0)
  }
  action Open = {
    nondet a = ACCTS.oneOf()
    val c = acct.get(a)
    if (not(c.lock.locked) or c.lock.on < 0 or c.lock.on > now) same({ op: "idle", a: a, b: 0, qty: 0, err: false, show: List() })
    else set1(acct.set(a, { ...c, lock: NOLOCK }), { op: "open", a: a, b: 0, qty: 0, err: false, show: List() }, 0)
  }
  // credit what was earned since the last time; fix: 0 replays the early chain
  action Credit = {
    nondet a = ACCTS.oneOf()
    nondet fix = 0.to(3).oneOf()
    val c = acct.get(a)
    val e = calculate(c.bal, now, c.last, age(a), c.lock, table, fix > 0)
    val w = if (e < 0) List() else newAge(age(a), 0, e, c.bal)
    if (e < 0 or w.length() == 0 or sum + e > MaxI64) same({ op: if (e < 0) "credit" else "idle", a: a, b: imin(fix, 1), qty: 0, err: e < 0, show: List() })
    else set1(acct.set(a, { ...c, waa: w[0], at: now, bal: c.bal + e, last: now }), { op: "credit", a: a, b: imin(fix, 1), qty: e, err: false, show: [w[0]] }, e)
  }
  action Rate = {
    nondet a = ACCTS.oneOf()
    same({ op: "rate", a: a, b: 0, qty: 0, err: false, show: [currentRate(age(a), acct.get(a).lock, table, now)] })
  }
  // everything through its binary (0: bytes, 1: stream) or text (2) form and back
  action Save = {
    nondet k = 0.to(2).oneOf()
    same({ op: "save", a: k, b: 0, qty: 0, err: false, show: List() })
  }
  action step = any { Wait, WaitFor, Deposit, Withdraw, Transfer, Overflow, LockUp, Notify, Open, Credit, Credit, Credit, Rate, Save }

  // ---- what must hold in every history ----------------------------------------------------
  // the average age of a balance is never more than the age of the account, nor negative
  val ages = ACCTS.forall(i => acct.get(i).waa >= 0 and age(i) <= now - acct.get(i).born and acct.get(i).at <= now and acct.get(i).last <= now)
  val money = ACCTS.forall(i => acct.get(i).bal >= 0) and sum == issued
  // crediting again at the same instant earns nothing; nothing earns nothing; without the fix never less
  val earnings = ACCTS.forall(i => {
    val c = acct.get(i)
    val e = calculate(c.bal, now, c.last, age(i), c.lock, table, true)
    val u = calculate(c.bal, now, c.last, age(i), c.lock, table, false)
    and {
      e >= -1,
      (c.bal == 0 and e >= 0) implies e == 0,
      (c.last == now and not(c.lock.locked)) implies e == 0,
      (e >= 0 and u >= 0) implies u >= e,
    }
  })
  val rateBounds = ACCTS.forall(i => {
    val x = currentRate(age(i), acct.get(i).lock, table, now)
    x >= 0 and x <= 2 * ONE
  })
  // a notified lock keeps the rate it had at the notice
  val frozen = ACCTS.forall(i => {
    val l = acct.get(i).lock
    if (l.locked and l.on > now) currentRate(age(i), l, table, now) == l.bonus + rateAt(table, age(i) + l.on - now) else true
  })
  val inv = ages and money and earnings and rateBounds and frozen
}
module account_full { import account(N = 3, SPAN = 400).* }
