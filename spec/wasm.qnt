// The WebAssembly module (cmd/keyaddr): how its functions answer JavaScript callers (C33).
// A call carries a list of arguments of any type, the last of which should be the callback.
// Texts and numbers are taken from numbered pools; what the facade makes of them is decided by C20.
module wasm {
  // types of arguments
  pure val TEXT = 0
  pure val NUM = 1
  pure val UNDEF = 2
  pure val NULLV = 3
  pure val BOOL = 4
  pure val OBJ = 5
  pure val ARR = 6
  pure val SYM = 7
  pure val BIG = 8        // has no counterpart in Go
  pure val CB = 9         // a callback
  pure val CBT = 10       // a callback which throws
  // values which JavaScript would turn into a text or number of the pool if it were asked to convert them
  pure val LISTED = 11    // an array of just that
  pure val BOXED = 12     // a String or Number object
  pure val SAYING = 13    // an object which gives it as its text and value
  pure val SWAPPED = 14   // a number whose digits are a text one could do with, or a number written as a text
  pure val KINDS = 15
  type Arg = { k: int, v: int }

  // functions by number, with the roles of their arguments
  pure val KEY = 0
  pure val SEED = 1
  pure val PATH = 2
  pure val LANG = 3
  pure val WORDS = 4
  pure val PREFIX = 5
  pure val MSG = 6
  pure val INDEX = 7      // a number within int32
  pure val MAX = 8        // a number
  pure val EXIT = 11
  pure val ROLES: List[List[int]] = [
    [SEED],                // 0 newKey
    [LANG, WORDS],         // 1 wordsToBytes
    [KEY, PATH, PATH],     // 2 deriveFrom
    [KEY],                 // 3 ndauAddress
    [KEY],                 // 4 toPublic
    [KEY, INDEX],          // 5 child
    [KEY, MSG],            // 6 sign
    [KEY, INDEX],          // 7 hardenedChild
    [LANG, PREFIX, MAX],   // 8 wordsFromPrefix
    [KEY],                 // 9 isPrivate
    [LANG, MSG],           // 10 wordsFromBytes
    [],                    // 11 exit
    [KEY]                  // 12 fromString
  ]
  // the numbers of the pool: the first IN32 of them are within int32, the rest are not (infinity, not-a-number and fractions included)
  pure val IN32: int = 7
  pure val NUMBERS: int = 13

  // what must happen
  pure val FACADE = 0     // the callback gets what the facade gives: (null, value) or (error, null)
  pure val ERR = 1        // the callback gets (error, null)
  pure val HANDLER = 2    // the error handler is told, once
  pure val REPORT = 3     // the callback or the error handler is told
  pure val GONE = 4       // the call throws: the module has ended
  pure val BYE = 5        // the callback gets (null, some text) and the module ends
  pure val EMPTY = 6      // the callback gets (null, "")

  var fn: int             // the last call
  var args: List[Arg]
  var alive: bool
  var out: int
  var told: int           // how often the error handler is called on top of that because the callback threw
  var again: bool         // the callback of this call makes the next call itself
  var wait: bool          // the caller waits for all answers before it goes on; if not, further calls are under way with this one

  // how the caller goes on: it waits for the answer, makes the next call in the callback, or right after this one
  pure val WAIT = 0
  pure val NESTED = 1
  pure val NOWAIT = 2     // (anything from here on)

  pure val CALLS = Set(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12)
  pure def isCb(a: Arg): bool = a.k == CB or a.k == CBT
  pure def answer(f: int, as: List[Arg]): int = {
    pure val n = as.length()
    if (n == 0 or not(isCb(as[if (n == 0) 0 else n - 1]))) HANDLER
    else if (n != ROLES[f].length() + 1) ERR
    else if (f == EXIT) BYE
    else if (0.to(n - 2).exists(i => as[i].k == BIG)) REPORT
    else if (0.to(n - 2).exists(i => (ROLES[f][i] == INDEX or ROLES[f][i] == MAX) and as[i].k != NUM)) ERR
    else if (0.to(n - 2).exists(i => ROLES[f][i] == INDEX and as[i].v >= IN32)) ERR
    // words in no language start with anything
    else if (f == 8 and (as[0].k != TEXT or as[1].k != TEXT)) EMPTY
    // the language may be left out here
    else if (f == 1 and as[0].k == UNDEF and as[1].k == TEXT) FACADE
    else if (0.to(n - 2).exists(i => ROLES[f][i] != INDEX and ROLES[f][i] != MAX and as[i].k != TEXT)) ERR
    else FACADE
  }

  action make(f: int, as: List[Arg], nest: int): bool = {
    val w = if (alive) answer(f, as) else GONE
    all {
      fn' = f,
      args' = as,
      out' = w,
      told' = if (alive and as.length() > 0 and as[as.length() - 1].k == CBT and w != HANDLER) 1 else 0,
      alive' = (alive and w != BYE),
      again' = (nest == NESTED and w != BYE and w != HANDLER and alive and as[as.length() - 1].k == CB),
      wait' = (nest < NOWAIT or w == BYE or not(alive))
    }
  }
  action init = all { fn' = 0, args' = List(), alive' = true, out' = FACADE, told' = 0, again' = false, wait' = true }

  pure def natural(role: int, t: int, x: int): Arg = if (role == INDEX or role == MAX) { k: NUM, v: x } else { k: TEXT, v: t }
  pure def roleAt(f: int, i: int): int = if (i < ROLES[f].length()) ROLES[f][i] else KEY

  // arguments as they should be
  action Proper = { nondet f = CALLS.oneOf() nondet t0 = 0.to(9).oneOf() nondet t1 = 0.to(9).oneOf() nondet t2 = 0.to(9).oneOf()
    nondet x0 = 0.to(NUMBERS - 1).oneOf() nondet nest = 0.to(3).oneOf()
    make(f, range(0, ROLES[f].length()).foldl(List(), (l, i) => l.append(natural(ROLES[f][i], if (i == 0) t0 else if (i == 1) t1 else t2, x0))).append({ k: CB, v: 0 }), nest) }
  // one argument of another type, or a throwing callback
  action OneOff = { nondet f = CALLS.oneOf() nondet t0 = 0.to(9).oneOf() nondet x0 = 0.to(NUMBERS - 1).oneOf() nondet nest = 0.to(3).oneOf()
    nondet at = 0.to(3).oneOf() nondet k0 = 0.to(KINDS - 1).oneOf()
    make(f, range(0, ROLES[f].length() + 1).foldl(List(), (l, i) => l.append(
        if (i == at or (i == ROLES[f].length() and at > i)) { k: k0, v: x0 % 10 } else if (i == ROLES[f].length()) { k: CB, v: 0 } else natural(ROLES[f][i], (t0 + i) % 10, x0))), nest) }
  // one argument which would do if it were converted, the others as they should be and valid
  action Alike = { nondet f = CALLS.oneOf() nondet t0 = 0.to(3).oneOf() nondet x0 = 0.to(2).oneOf() nondet nest = 0.to(3).oneOf()
    nondet at = 0.to(2).oneOf() nondet k0 = LISTED.to(SWAPPED).oneOf()
    make(f, range(0, ROLES[f].length()).foldl(List(), (l, i) => l.append(
        if (i == at % ROLES[f].length()) { k: k0, v: if (ROLES[f][i] == INDEX or ROLES[f][i] == MAX) x0 else t0 } else natural(ROLES[f][i], t0, x0))).append({ k: CB, v: 0 }), nest) }
  // anything at all
  action Wild = { nondet f = CALLS.oneOf() nondet n = 0.to(5).oneOf() nondet kinds = 0.to(KINDS * KINDS * KINDS - 1).oneOf() nondet t0 = 0.to(9).oneOf() nondet nest = 0.to(3).oneOf()
    make(f, range(0, n).foldl((kinds, List()), (st, i) => (if (st._1 < KINDS) kinds + 7 * i else st._1 / KINDS, st._2.append({ k: st._1 % KINDS, v: (t0 + i) % 10 })))._2, nest) }
  // the wrong number of arguments
  action Count = { nondet f = 0.to(12).oneOf() nondet n0 = 0.to(4).oneOf() nondet t0 = 0.to(9).oneOf() nondet nest = 0.to(3).oneOf()
    val n = if (n0 >= ROLES[f].length()) n0 + 1 else n0
    make(f, range(0, n).foldl(List(), (l, i) => l.append(natural(roleAt(f, i), t0, t0))).append({ k: CB, v: 0 }), nest) }
  action Level = { nondet n = 0.to(4).oneOf() all { wait, not(again), fn' = fn, args' = args, alive' = alive, out' = out, told' = 0, again' = false, wait' = true } }
  action Exit = { nondet n = 0.to(12).oneOf() all { wait, not(again), if (n == 0) make(EXIT, [{ k: CB, v: 0 }], WAIT) else make(3, [], WAIT) } }

  action step = any { Proper, OneOff, Alike, Wild, Count, Level, Exit }

  // ---- properties of the specification ----------------------------------------
  // (no call follows one after which the module may be gone without waiting)
  val inOrder = (not(alive) implies wait) and not(again and not(alive))
  // nothing but exit ends the module
  val onlyExit = out == BYE implies not(alive)
  val gone = out == GONE implies not(alive)
  val inv = onlyExit and gone and inOrder
}
