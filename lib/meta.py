"""MANIFEST texts: property -> (technique, level_note)."""
TV = "Quint specification; trace validation: recorded executions of the real code judged by the specification"
MBT = "Quint specification; model-based replay of its behaviours on the real code"
NA = {}
META = {
 "C01": (TV, "Every recorded NewMaster/Child step is recomputed by the specification on unbounded integers (secp256k1 included); HMAC/SHA values are facts whose inputs the spec recomputes. Sampled seeds and indices, leading-zero keys constructed on purpose, depth up to 255."),
 "C02": (TV, "All split points of recorded derivations give the text the spec prescribes. Sampled keys and index sequences, leading-zero keys included."),
 "C03": (TV, "Guards and hardened requests by index, HardenedChild and path over index boundary values and all key kinds; the child obtained is recomputed by the specification."),
 "C04": (TV, "Accepted paths, remaining elements and the derived key are recomputed by the specification for generated and mutated path pairs."),
 "C05": (TV, "Round trips and corrupted texts judged by the spec's decoder; SHA-224 of the embedded message is a fact."),
 "C07": (TV, "Every recorded Generate call must produce exactly the text the spec computes (SHA-256 supplied by the Go standard library is trusted). Sampled data, all 256 kinds, all lengths 0..64."),
 "C08": (TV + "; exhaustive edit sweep", "Typing errors on sampled addresses are enumerated exhaustively (all single substitutions, adjacent swaps) and judged by the spec's acceptance rule."),
 "C09": (TV, "Recorded Validate/UnmarshalText/ParseKind calls on adversarial texts judged by the spec's exact acceptance rule, canonical form and kinds."),
 "C10": (TV, "Encode/Decode/Index calls over all lengths 0..66, every ASCII character at every block position, mutations and padding soup, judged by the spec's decoder automaton. Non-ASCII text: totality only."),
 "C11": (TV, "AddChecksum/CheckChecksum over all lengths 0..120 and larger, wrong widths with right checksums, bit errors; SHA-224 is a fact."),
 "C12": (TV, "Five algorithms (two registered by the driver), keys with extra bytes up to 400, every encoding recomputed by the spec."),
 "C13": (TV, "Structured mutations of every encoding into fresh and used objects, all decoders; the spec's decoder says accept or reject and the value."),
 "C14": (TV, "ECDSA over secp256k1 and Ed25519 verification are specified on integers; every recorded Verify/Match must agree with them (hashes are facts)."),
 "C31": (TV, "Old-format texts, valid, mutated field by field and truncated, judged by the spec's parser; double SHA-256 is a fact."),
 "C32": (TV, "Entropy sources with every length, failure point and read splitting; outputs judged by the spec."),
 "C06": ("Quint specification of key objects and variables; model-based replay of its behaviours on the real code, TLC exhaustive on a small instance",
         "Thousands of steps of random histories (5 extended-key variables, 2 signature-key variables, 17 kinds of step), every variable compared after every step; what a term denotes is computed by reference code that the specification judges."),
 "C15": ("Quint specification of the registry; model-based replay on the real code in fresh processes, TLC exhaustive on a small instance",
         "Random registration histories over all kinds of types and forms; after every step all 256 ids and all types are looked up both ways."),
 "C16": ("Quint specification of shared mutable sets; model-based replay on the real code, TLC exhaustive on a small instance; " + TV,
         "Random histories over 4 variables and 256 elements, every variable compared in full after every step; plus recorded set operations on structured pairs."),
 "C17": (TV + "; model-based replay", "Every element, every length of input, structured and mutated encodings; encodings compared after every step of random histories."),
 "C18": (TV, "Every word, every length 0..70, random and damaged phrases; CRC, splitting and ambiguity are specified. The word list is a frozen copy. One known finding (ambiguous phrases)."),
 "C19": (TV, "Prefix lookups (every single byte, random and damaged prefixes, limits around the match count) computed by the specification over the frozen word list."),
 "C20": ("Quint specification of the facade's string-valued key store; model-based replay of its behaviours on the real code, TLC exhaustive on a small instance; " + TV,
         "Random histories over 5 key-string variables and 18 kinds of facade call with invalid arguments mixed in; every string compared with the spec's key denotation after every step; words operations judged by the words specification."),
 "C21": ("Quint specification of overlapping calls on shared objects; its interleavings replayed with real goroutines under the race detector, TLC exhaustive on a small instance; behaviours of the other models replayed by concurrent goroutines",
         "4 goroutines on shared keys and sets plus calls on values of their own; 40 behaviours of the key, facade and bitset models at once; recorders run by 8 goroutines compared with the same run alone. Every process starts cold. Schedules are sampled by the real scheduler; the race detector extends each to all orders of the same synchronization."),
 "C22": (TV, "Every recorded Add/Sub/Mul/Div/Mod/DivMod/MulDiv call is recomputed on unbounded integers: all pairs of boundary values (extremes, powers of two and their neighbours, square roots) and random operands of every bit length."),
 "C23": (TV, "ExpFrac is bounded by an integer enclosure of the exponential computed by the specification; LnInt by integer powers of e. Boundary fractions, adjacent numerators, the breaks of the logarithm (round(e^k) and neighbours) and random values."),
 "C24": (TV, "Generated tables, periods, locks and freezes; the slices must partition the period and carry the specified rate at every breakpoint. The decimal library is a stand-in that this area does not use."),
 "C25": ("Quint specification of the EAI formula and of account histories; " + TV + "; model-based replay of account histories", "The specification carries out the published fixed-point algorithm digit by digit. The third-party decimal library is absent here and replaced by a 34-digit stand-in (assumption)."),
 "C26": ("Quint specification of account histories; model-based replay of its behaviours on the real code; " + TV, "Random histories of deposits, withdrawals and elapsed time compared after every step; every single update recomputed on unbounded integers, overflow boundaries included."),
 "C27": (TV, "The published recurrence is evaluated in exact integers for all blocks 0..30250 of both curves and compared with the code at every block of a sample, block edges and phase edges; approximate totals are bounded and checked for additivity."),
 "C28": (TV, "Grammar and value of amounts, durations, rates, dollars and table rows are specified over code points; printed values, generated texts and mutated texts are judged."),
 "C29": (TV, "Timestamp arithmetic recomputed on unbounded integers at the clamping boundaries; calendar conversion specified by day counting; generated and mutated RFC 3339 texts judged."),
 "C30": (TV, "The msgp wire form is specified byte by byte; encodings, truncations, wrong types and trailing bytes are judged for every record type through the byte and the stream interface. One known finding (claimed row counts are allocated)."),
 "C33": ("Quint specifications of the facade's key store and of the module's call protocol; model-based replay of their behaviours on the WebAssembly module under node",
         "Random histories of proper, odd and malformed calls over all JavaScript types, nested calls and throwing callbacks included; every answer compared. The module is built from the working tree and run by node with the Go distribution's wasm_exec.js."),
 "C34": (TV + "; lemmas about the specified CRC checked exhaustively", "Checksums of all lengths 0..130 and longer recomputed bit by bit; damage of the kinds the CRC is bound to detect. SHA-256 is a fact."),
 "C35": (TV, "Conversions recomputed on unbounded integers at the boundaries of both types; times in arbitrary zones, pairs of times for the order."),
 "C36": (TV, "Prices all over the curve and between adjacent blocks; the block returned must bracket the price on the exactly specified curve."),
 "C37": (TV, "The set of error values each refused call may report is computed by the specification from the arguments; every documented cause is produced on purpose, alone and in combination, through the key and bip32 packages, the facade and the arithmetic packages."),
 "C38": (TV, "Documents written and read by encoding/json, and what fmt prints, for every type at every place in a document; the specification composes the document from the value's text and undoes escapes itself."),
}
