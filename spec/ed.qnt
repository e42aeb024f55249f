// Ed25519 signature verification on unbounded integers (C14).
module ed {
  import bytes.* from "./bytes"

  pure val Q: int = 2^255 - 19
  pure val L: int = 2^252 + 27742317777372353535851937790883648493
  pure def pw(b: int, e: int): int =
    range(0, 256).foldl((e, 1, b % Q), (st, i) =>
      if (st._1 == 0) st else
      (st._1 / 2, if (st._1 % 2 == 1) (st._2 * st._3) % Q else st._2, (st._3 * st._3) % Q))._2
  pure def finv(a: int): int = pw(a, Q - 2)
  pure val D: int = md(-121665 * finv(121666), Q)
  pure val SQRTM1: int = pw(2, (Q - 1) / 4)
  pure val BY: int = (4 * finv(5)) % Q

  // square root of u/v, or -1
  pure def root(u: int, v: int): int = {
    pure val v3 = (v * v * v) % Q
    pure val x = (u * v3 * pw(u * v3 * v3 * v, (Q - 5) / 8)) % Q
    pure val c = (v * x * x) % Q
    if (c == u % Q) x else if (c == md(-u, Q)) (x * SQRTM1) % Q else -1
  }
  // extended coordinates (X, Y, Z, T)
  type E = (int, int, int, int)
  pure val ZERO: E = (0, 1, 1, 0)
  pure def mkPoint(y: int, sign: int): E = {
    pure val x0 = root(md(y * y - 1, Q), (D * y * y + 1) % Q)
    if (x0 < 0) (0, 0, 0, 0) else {
      pure val x = if (x0 % 2 == sign) x0 else md(-x0, Q)
      (x, y, 1, (x * y) % Q)
    }
  }
  pure val BASE: E = mkPoint(BY, 0)

  pure def eadd(p: E, q: E): E = {
    pure val a = ((p._2 - p._1) * (q._2 - q._1)) % Q
    pure val b = ((p._2 + p._1) * (q._2 + q._1)) % Q
    pure val c = (2 * D * p._4 * q._4) % Q
    pure val d = (2 * p._3 * q._3) % Q
    (md((b - a) * (d - c), Q), md((d + c) * (b + a), Q), md((d - c) * (d + c), Q), md((b - a) * (b + a), Q))
  }
  pure def edbl(p: E): E = {
    pure val a = (p._1 * p._1) % Q
    pure val b = (p._2 * p._2) % Q
    pure val c = (2 * p._3 * p._3) % Q
    pure val e = (p._1 + p._2) * (p._1 + p._2) - a - b
    pure val g = b - a
    pure val f = g - c
    pure val h = -a - b
    (md(e * f, Q), md(g * h, Q), md(f * g, Q), md(e * h, Q))
  }
  pure def emul(k: int, p: E): E =
    range(0, 256).foldl((k, ZERO, p), (st, i) =>
      if (st._1 == 0) st else
      (st._1 / 2, if (st._1 % 2 == 1) eadd(st._2, st._3) else st._2, edbl(st._3)))._2
  pure def eneg(p: E): E = (md(-p._1, Q), p._2, p._3, md(-p._4, Q))

  // little-endian value of a byte string
  pure def le(b: Bytes): int =
    range(0, b.n).foldl((b.v, 0), (st, i) => (st._1 / 256, st._2 * 256 + st._1 % 256))._2
  // encoding of a point as the integer its 32 little-endian bytes denote
  pure def enc(p: E): int = {
    pure val zi = finv(p._3)
    (p._2 * zi) % Q + 2^255 * (((p._1 * zi) % Q) % 2)
  }
  // is the public key the canonical encoding of a point?
  pure def canonical(pub: Bytes): bool = {
    pure val a = le(pub)
    a % 2^255 < Q and (a % 2^255 != 1 and a % 2^255 != Q - 1 or a < 2^255)
  }
  // h = SHA-512(R || A || M)
  pure def edVerify(pub: Bytes, h: Bytes, sig: Bytes): bool =
    if (pub.n != 32 or sig.n != 64) false else {
      pure val a = le(pub)
      pure val s = le(drop(sig, 32))
      pure val pt = mkPoint(a % 2^255, a / 2^255)
      if (pt._3 == 0 or s >= L) false
      else enc(eadd(emul(s, BASE), emul(le(h) % L, eneg(pt)))) == le(take(sig, 32))
    }
}
