// Recorded uses of encoding/json and fmt with the repository's types (C38).
module tv_json {
  import bytes.* from "./bytes"
  import json.* from "./json"

  // [1, kind, shape, text1, text2, status of Marshal, document, status of Unmarshal, text1, text2 of what came back]
  pure def vDoc(r: List[int]): int = {
    pure val t1 = unwire(r[3])
    pure val t2 = unwire(r[4])
    if (not(plain(t1)) or not(plain(t2)) or (r[2] == 9 and t1 == t2)) 90
    else if (r[5] != 0) -1
    else if (unwire(r[6]) != docOf(r[1], r[2], t1, t2)) -2
    else if (r[7] != 0) -3
    else if (r[8] != r[3] or (r[2] > 3 and r[9] != r[4])) -4
    else 100 + 10 * r[1] + r[2]
  }
  // [2, kind, document (no string for kinds below 8), status of Unmarshal, text before, text after]
  pure def vOther(r: List[int]): int = {
    pure val d = unwire(r[2])
    pure val w = if (r[1] < 8) List() else wholeOf(d)
    if (r[3] >= 2) -11
    else if (at(d, 0) == 110) (if (r[3] != 0 or r[5] != r[4]) -12 else 10)      // null leaves things as they are
    else if (w.length() == 0) (if (r[3] == 1) 11 else -13)
    else if (r[3] != 0) -14
    else if (wholeOf(unwire(r[5])) != w) -15
    else 12
  }
  // [3, kind, document: a string with escapes, status of Unmarshal, text after]
  pure def vEscaped(r: List[int]): int =
    if (r[3] != 0) -21 else if (unwire(r[4]) != unescape(unwire(r[2]))) -22 else 20
  // [4, kind, status, String of a and b, what fmt prints for a, for a pointer to a, for a list of a and b, for a struct with a]
  pure def vPrint(r: List[int]): int = {
    pure val a = unwire(r[3])
    pure val b = unwire(r[4])
    if (r[2] != 0) -31
    else if (r[5] != r[3] or r[6] != r[3]) -32
    else if (unwire(r[7]) != cat(cat4(SQUARE, a, ofList([32]), b), CLOSE)) -33
    else if (unwire(r[8]) != cat3(CURLY, a, BRACE)) -34
    else 30
  }
  // [5, kind, document, status and text of a new variable, status and text of one that held something else]
  pure def vUsed(r: List[int]): int =
    if (r[3] >= 2 or r[5] >= 2) -41
    else if (r[3] != r[5]) -42
    else if (r[4] != r[6]) -43
    else if (r[3] == 0) 40 else 41
  pure def verdict(r: List[int]): int =
    if (r[0] == 1) vDoc(r) else if (r[0] == 2) vOther(r) else if (r[0] == 3) vEscaped(r) else if (r[0] == 4) vPrint(r) else if (r[0] == 5) vUsed(r)
    else if (r[0] == 1000) vMemory(r) else -1000
}
