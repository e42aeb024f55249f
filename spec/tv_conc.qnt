// Recorded runs of many goroutines against the same calls made alone (C21).
// [1, results alone, results among other goroutines, how many differ]
module tv_conc {
  pure def verdict(r: List[int]): int =
    if (r[0] != 1) -1000
    else if (r[1] != r[2] or r[3] != 0) -1
    else 1
}
