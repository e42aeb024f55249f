// The checksums of the b32 package: CRC-16 with generator x^16 + x^12 + x^5 + 1, initial value 0x1D0F, most significant
// bit first (AUG-CCITT), and the first three bytes of SHA-256.
module crc {
  import bytes.* from "./bytes"

  pure def flip(x: int, bit: int): int = if (x / bit % 2 == 1) x - bit else x + bit
  // multiplication by x modulo the generator
  pure def times(c: int): int =
    if (c >= 32768) flip(flip(2 * (c - 32768) + 1, 32), 4096) else 2 * c
  pure def times8(c: int): int = times(times(times(times(times(times(times(times(c))))))))
  pure def xor16(a: int, b: int): int = range(0, 16).foldl((a, b, 1, 0), (st, i) =>
    (st._1 / 2, st._2 / 2, st._3 * 2, st._4 + (if (st._1 % 2 != st._2 % 2) st._3 else 0)))._4
  pure def feed(c: int, x: int): int = times8(xor16(c, 256 * x))
  pure def crc16(b: Bytes): int = toList(b).foldl(7439, (c, x) => feed(c, x))
  pure def checksum16(b: Bytes): Bytes = mk(2, crc16(b))

  // Why the check catches errors: the checksum of a damaged message differs by the residue of the difference, which is
  // run through `times`.  That never maps a residue other than 0 to 0 (so a difference within 16 bits is seen), keeps
  // the parity (so an odd number of wrong bits is seen), and takes 32767 steps to come back to 1 (so two wrong bits
  // less than 4095 bytes apart are seen).
  pure def untimes(c: int): int = if (c % 2 == 1) 32768 + flip(flip(c, 32), 4096) / 2 else c / 2
  pure def parity(x: int): int = range(0, 16).foldl((x, 0), (st, i) => (st._1 / 2, (st._2 + st._1) % 2))._2
  run invertibleTest = assert(range(0, 65536).foldl(true, (acc, c) => acc and times(c) < 65536 and untimes(times(c)) == c))
  run parityTest = assert(range(0, 65536).foldl(true, (acc, c) => acc and parity(times(c)) == parity(c)))
  run orderTest = assert(range(1, 32767).foldl((1, true), (st, k) => (times(st._1), st._2 and times(st._1) != 1)) == (untimes(1), true))
  run vectorTest = assert(all {     // "123456789", and nothing
    crc16(ofList([49, 50, 51, 52, 53, 54, 55, 56, 57])) == 58828,
    crc16(EMPTY) == 7439 })
}
