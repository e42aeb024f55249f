// Derivation path texts (C04): "/" is the root, otherwise /digits['] repeated; spaces are ignored.
module path {
  import bytes.* from "./bytes"

  type El = { id: int, hard: bool }
  type Path = { ok: bool, els: List[El] }
  pure val BADPATH: Path = { ok: false, els: List() }

  // mode: 0 expecting '/', 1 just after '/', 2 in digits, 3 after apostrophe, 9 malformed
  type St = { mode: int, v: int, els: List[El] }
  pure def pathStep(st: St, c: int): St =
    if (st.mode == 9) st
    else if (c == 47)
      (if (st.mode == 1) { ...st, mode: 9 }
       else if (st.mode == 2) { mode: 1, v: 0, els: st.els.append({ id: st.v, hard: false }) }
       else { ...st, mode: 1, v: 0 })
    else if (isDigit(c))
      (if (st.mode == 1 or st.mode == 2) { ...st, mode: 2, v: st.v * 10 + c - 48 } else { ...st, mode: 9 })
    else if (c == 39)
      (if (st.mode == 2) { mode: 3, v: 0, els: st.els.append({ id: st.v, hard: true }) } else { ...st, mode: 9 })
    else { ...st, mode: 9 }

  pure def parsePath(text: Bytes): Path = {
    pure val cs = toList(text).select(c => c != 32)
    if (cs == [47]) { ok: true, els: List() }
    else {
      pure val f = cs.foldl({ mode: 0, v: 0, els: List() }, (st, c) => pathStep(st, c))
      pure val els = if (f.mode == 2) f.els.append({ id: f.v, hard: false }) else f.els
      if ((f.mode != 2 and f.mode != 3) or els.select(e => e.id >= 2^32).length() > 0) BADPATH
      else { ok: true, els: els }
    }
  }
  // c strictly extends p
  pure def extends(p: List[El], c: List[El]): bool =
    c.length() > p.length() and c.slice(0, p.length()) == p
  // what remains to be derived; ok = false when the request is malformed or not a descendant
  pure def remaining(p: Bytes, c: Bytes): Path = {
    pure val pp = parsePath(p)
    pure val cp = parsePath(c)
    if (not(pp.ok) or not(cp.ok)) BADPATH
    else if (not(extends(pp.els, cp.els))) BADPATH
    else { ok: true, els: cp.els.slice(pp.els.length(), cp.els.length()) }
  }
  // child number an element asks for; -1: impossible request
  pure def childNumber(e: El): int =
    if (e.hard) (if (e.id >= 2^31) -1 else e.id + 2^31) else e.id
}
