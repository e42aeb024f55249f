// The secp256k1 group, point compression and ECDSA verification, on unbounded integers.
module ec {
  import bytes.* from "./bytes"

  pure val P: int = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F
  pure val N: int = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
  pure val GX: int = 0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798
  pure val GY: int = 0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8

  // Jacobian coordinates; z = 0 is the point at infinity
  type Pt = { x: int, y: int, z: int }
  pure val O: Pt = { x: 0, y: 1, z: 0 }
  pure val G: Pt = { x: GX, y: GY, z: 1 }

  pure def dbl(p: Pt): Pt =
    if (p.z == 0 or p.y == 0) O else {
      pure val yy = (p.y * p.y) % P
      pure val s = (4 * p.x * yy) % P
      pure val m = (3 * p.x * p.x) % P
      pure val x3 = md(m * m - 2 * s, P)
      { x: x3, y: md(m * (s - x3) - 8 * yy * yy, P), z: (2 * p.y * p.z) % P }
    }
  pure def padd(p: Pt, q: Pt): Pt =
    if (p.z == 0) q else if (q.z == 0) p else {
      pure val z1 = (p.z * p.z) % P
      pure val z2 = (q.z * q.z) % P
      pure val u1 = (p.x * z2) % P
      pure val u2 = (q.x * z1) % P
      pure val s1 = (p.y * q.z * z2) % P
      pure val s2 = (q.y * p.z * z1) % P
      if (u1 == u2) (if (s1 == s2) dbl(p) else O) else {
        pure val h = md(u2 - u1, P)
        pure val r = md(s2 - s1, P)
        pure val h2 = (h * h) % P
        pure val h3 = (h * h2) % P
        pure val v = (u1 * h2) % P
        pure val x3 = md(r * r - h3 - 2 * v, P)
        { x: x3, y: md(r * (v - x3) - s1 * h3, P), z: (h * p.z * q.z) % P }
      }
    }
  pure def pmul(k: int, p: Pt): Pt =
    range(0, 256).foldl({ k: k, acc: O, p: p }, (st, i) =>
      if (st.k == 0) st else
      { k: st.k / 2, acc: if (st.k % 2 == 1) padd(st.acc, st.p) else st.acc, p: dbl(st.p) }).acc
  pure def powmod(b: int, e: int, m: int): int =
    range(0, 256).foldl({ e: e, acc: 1, b: b % m }, (st, i) =>
      { e: st.e / 2, acc: if (st.e % 2 == 1) (st.acc * st.b) % m else st.acc, b: (st.b * st.b) % m }).acc
  pure def inv(a: int, m: int): int = powmod(a, m - 2, m)

  // p must not be the point at infinity
  pure def affine(p: Pt): (int, int) =
    if (p.z == 1) (p.x, p.y) else {
      pure val zi = inv(p.z, P)
      pure val zi2 = (zi * zi) % P
      ((p.x * zi2) % P, (p.y * zi2 * zi) % P)
    }
  pure def compress(p: Pt): Bytes = {
    pure val a = affine(p)
    mk(33, (2 + a._2 % 2) * 2^256 + a._1)
  }
  // decompression; z = 0 when the 33 bytes are not a point
  pure def decompress(b: Bytes): Pt = {
    pure val tag = b.v / 2^256
    pure val x = b.v % 2^256
    if (b.n != 33 or (tag != 2 and tag != 3) or x >= P) O else {
      pure val y2 = (x * x * x + 7) % P
      pure val y = powmod(y2, (P + 1) / 4, P)
      if ((y * y) % P != y2) O
      else { x: x, y: if (y % 2 == tag - 2) y else P - y, z: 1 }
    }
  }
  pure def onCurve(b: Bytes): bool = decompress(b).z != 0
  pure def validScalar(b: Bytes): bool = b.n == 32 and b.v > 0 and b.v < N
  // public key bytes of a 32-byte private key
  pure def pubOf(b: Bytes): Bytes = compress(pmul(b.v, G))

  // ECDSA: does (r, s) sign the 32-byte hash h under the public key?
  pure def ecdsa(pub: Bytes, h: int, r: int, s: int): bool = {
    pure val q = decompress(pub)
    if (q.z == 0 or r <= 0 or r >= N or s <= 0 or s >= N) false else {
      pure val w = inv(s, N)
      pure val pt = padd(pmul((h * w) % N, G), pmul((r * w) % N, q))
      pt.z != 0 and affine(pt)._1 % N == r
    }
  }
}
