--------------------------- MODULE concurrent_small ---------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

(*
  @type: (() => Set(Int));
*)
concurrent_small_concurrent_NUMS == { 1, 5 }

(*
  @type: (() => Set(Int));
*)
concurrent_small_concurrent_KEYS == 0 .. 1

(*
  @type: ((Int, Set(Int), Int, Int) => { path: Seq(Int), priv: Bool, seed: Int, st: Int });
*)
concurrent_small_concurrent_keyNo(concurrent_small_concurrent_i_183, concurrent_small_concurrent_nums_183,
concurrent_small_concurrent_a_183, concurrent_small_concurrent_b_183) ==
  [st |-> 1,
    seed |-> concurrent_small_concurrent_i_183 % 2,
    path |->
      IF concurrent_small_concurrent_i_183 < 2
      THEN <<>>
      ELSE <<
        concurrent_small_concurrent_a_183, concurrent_small_concurrent_b_183
      >>,
    priv |-> concurrent_small_concurrent_i_183 % 2 = 0]

(*
  @type: (() => Int);
*)
concurrent_small_concurrent_HARD == 4

(*
  @type: (() => Set(Int));
*)
concurrent_small_concurrent_SETS == 0 .. 1

(*
  @type: ((Int, Set(Int)) => Set(Int));
*)
concurrent_small_concurrent_setNo(concurrent_small_concurrent_i_149, concurrent_small_concurrent_u_149) ==
  {
    concurrent_small_concurrent_e_147 \in concurrent_small_concurrent_u_149:
      IF concurrent_small_concurrent_i_149 = 0
      THEN concurrent_small_concurrent_e_147 % 11 = 1
      ELSE IF concurrent_small_concurrent_i_149 = 1
      THEN concurrent_small_concurrent_e_147 % 2 = 1
        /\ concurrent_small_concurrent_e_147 % 9 < 2
      ELSE IF concurrent_small_concurrent_i_149 = 2
      THEN concurrent_small_concurrent_e_147 % 22 = 1
      ELSE (concurrent_small_concurrent_e_147 = 0
          \/ concurrent_small_concurrent_e_147 = 64)
        \/ concurrent_small_concurrent_e_147 > 250
  }

(*
  @type: (() => Set(Int));
*)
concurrent_small_concurrent_UNIV == 0 .. 2

VARIABLE
  (*
    @type: (Int -> { path: Seq(Int), priv: Bool, seed: Int, st: Int });
  *)
  concurrent_small_concurrent_ck

VARIABLE
  (*
    @type: (Int -> Set(Int));
  *)
  concurrent_small_concurrent_cs

VARIABLE
  (*
    @type: (Int -> { path: Seq(Int), priv: Bool, seed: Int, st: Int });
  *)
  concurrent_small_concurrent_ck0

VARIABLE
  (*
    @type: (Int -> Set(Int));
  *)
  concurrent_small_concurrent_cs0

VARIABLE
  (*
    @type: (Int -> { call: { n: Int, o: Int, op: Str, p: Int }, on: Bool, res: { elems: Set(Int), flag: Bool, key: { path: Seq(Int), priv: Bool, seed: Int, st: Int }, ok: Bool } });
  *)
  concurrent_small_concurrent_job

(*
  @type: (() => Set(Int));
*)
concurrent_small_concurrent_W == 0 .. 1

(*
  @type: (() => { path: Seq(Int), priv: Bool, seed: Int, st: Int });
*)
concurrent_small_concurrent_ZERO ==
  [st |-> 0, seed |-> 0, path |-> <<>>, priv |-> FALSE]

VARIABLE
  (*
    @type: Seq(<<{ n: Int, o: Int, op: Str, p: Int }, { elems: Set(Int), flag: Bool, key: { path: Seq(Int), priv: Bool, seed: Int, st: Int }, ok: Bool }>>);
  *)
  concurrent_small_concurrent_seen

(*
  @type: (() => Set(Str));
*)
concurrent_small_concurrent_KEYOPS ==
  { "child", "hard", "public", "spub", "spriv", "text", "tosig", "sign" }

(*
  @type: (({ path: Seq(Int), priv: Bool, seed: Int, st: Int }) => Bool);
*)
concurrent_small_concurrent_isKey(concurrent_small_concurrent_k_905) ==
  concurrent_small_concurrent_k_905["st"] = 1

(*
  @type: (({ path: Seq(Int), priv: Bool, seed: Int, st: Int }, Int) => { path: Seq(Int), priv: Bool, seed: Int, st: Int });
*)
concurrent_small_concurrent_child(concurrent_small_concurrent_k_962, concurrent_small_concurrent_n_962) ==
  [
    concurrent_small_concurrent_k_962 EXCEPT
      !["path"] =
        Append(concurrent_small_concurrent_k_962["path"], concurrent_small_concurrent_n_962)
  ]

(*
  @type: (({ path: Seq(Int), priv: Bool, seed: Int, st: Int }) => { path: Seq(Int), priv: Bool, seed: Int, st: Int });
*)
concurrent_small_concurrent_neuter(concurrent_small_concurrent_k_928) ==
  [ concurrent_small_concurrent_k_928 EXCEPT !["priv"] = FALSE ]

(*
  @type: ((Set(Int)) => Int);
*)
concurrent_small_concurrent_top(concurrent_small_concurrent_s_219) ==
  LET (*
    @type: ((Int, Int) => Int);
  *)
  __QUINT_LAMBDA0(concurrent_small_concurrent_acc_217, concurrent_small_concurrent_i_217) ==
    IF concurrent_small_concurrent_i_217 > concurrent_small_concurrent_acc_217
    THEN concurrent_small_concurrent_i_217
    ELSE concurrent_small_concurrent_acc_217
  IN
  ApaFoldSet(__QUINT_LAMBDA0, (-1), concurrent_small_concurrent_s_219)

(*
  @type: (() => Set(Str));
*)
concurrent_small_concurrent_SETOPS ==
  { "inter", "union", "clone", "equal", "subset", "less" }

(*
  @type: (() => Int);
*)
concurrent_small_concurrent_PLAIN == 0

(*
  @type: (() => { elems: Set(Int), flag: Bool, key: { path: Seq(Int), priv: Bool, seed: Int, st: Int }, ok: Bool });
*)
concurrent_small_concurrent_NORES ==
  [ok |-> TRUE,
    key |-> concurrent_small_concurrent_ZERO,
    elems |-> {},
    flag |-> TRUE]

(*
  @type: (({ path: Seq(Int), priv: Bool, seed: Int, st: Int }, Int, Int) => Bool);
*)
concurrent_small_concurrent_childOk(concurrent_small_concurrent_k_947, concurrent_small_concurrent_n_947,
concurrent_small_concurrent_hard_947) ==
  concurrent_small_concurrent_isKey(concurrent_small_concurrent_k_947)
    /\ (concurrent_small_concurrent_k_947["priv"]
      \/ concurrent_small_concurrent_n_947
        < concurrent_small_concurrent_hard_947)

(*
  @type: ((Set(Int), Set(Int)) => Bool);
*)
concurrent_small_concurrent_less(concurrent_small_concurrent_a_237, concurrent_small_concurrent_b_237) ==
  concurrent_small_concurrent_top((concurrent_small_concurrent_a_237
    \ concurrent_small_concurrent_b_237))
    < concurrent_small_concurrent_top((concurrent_small_concurrent_b_237
      \ concurrent_small_concurrent_a_237))

(*
  @type: (() => Bool);
*)
concurrent_small_concurrent_unchanged ==
  concurrent_small_concurrent_ck = concurrent_small_concurrent_ck0
    /\ concurrent_small_concurrent_cs = concurrent_small_concurrent_cs0

(*
  @type: (() => { call: { n: Int, o: Int, op: Str, p: Int }, on: Bool, res: { elems: Set(Int), flag: Bool, key: { path: Seq(Int), priv: Bool, seed: Int, st: Int }, ok: Bool } });
*)
concurrent_small_concurrent_IDLE ==
  [on |-> FALSE,
    call |-> [op |-> "", o |-> 0, p |-> 0, n |-> 0],
    res |-> concurrent_small_concurrent_NORES]

(*
  @type: ((Bool, { path: Seq(Int), priv: Bool, seed: Int, st: Int }) => { elems: Set(Int), flag: Bool, key: { path: Seq(Int), priv: Bool, seed: Int, st: Int }, ok: Bool });
*)
concurrent_small_concurrent_keyIf(concurrent_small_concurrent_good_200, concurrent_small_concurrent_k_200) ==
  IF concurrent_small_concurrent_good_200
  THEN [
    (concurrent_small_concurrent_NORES) EXCEPT
      !["key"] = concurrent_small_concurrent_k_200
  ]
  ELSE [ (concurrent_small_concurrent_NORES) EXCEPT !["ok"] = FALSE ]

(*
  @type: (({ path: Seq(Int), priv: Bool, seed: Int, st: Int }, Int, Int) => Bool);
*)
concurrent_small_concurrent_hardOk(concurrent_small_concurrent_k_981, concurrent_small_concurrent_n_981,
concurrent_small_concurrent_hard_981) ==
  concurrent_small_concurrent_n_981 < concurrent_small_concurrent_hard_981
    /\ concurrent_small_concurrent_childOk(concurrent_small_concurrent_k_981, (concurrent_small_concurrent_n_981
      + concurrent_small_concurrent_hard_981), concurrent_small_concurrent_hard_981)

(*
  @type: (() => Bool);
*)
concurrent_small_concurrent_init ==
  \E concurrent_small_concurrent_a \in concurrent_small_concurrent_NUMS:
    \E concurrent_small_concurrent_b \in concurrent_small_concurrent_NUMS:
      LET (*
        @type: (() => (Int -> { path: Seq(Int), priv: Bool, seed: Int, st: Int }));
      *)
      concurrent_small_concurrent_ks ==
        [
          concurrent_small_concurrent_i_540 \in concurrent_small_concurrent_KEYS |->
            concurrent_small_concurrent_keyNo(concurrent_small_concurrent_i_540,
            (concurrent_small_concurrent_NUMS), (concurrent_small_concurrent_a
              % concurrent_small_concurrent_HARD), (concurrent_small_concurrent_b
              % concurrent_small_concurrent_HARD))
        ]
      IN
      LET (*
        @type: (() => (Int -> Set(Int)));
      *)
      concurrent_small_concurrent_ss ==
        [
          concurrent_small_concurrent_i_548 \in concurrent_small_concurrent_SETS |->
            concurrent_small_concurrent_setNo(concurrent_small_concurrent_i_548,
            (concurrent_small_concurrent_UNIV))
        ]
      IN
      concurrent_small_concurrent_ck = concurrent_small_concurrent_ks
        /\ concurrent_small_concurrent_cs = concurrent_small_concurrent_ss
        /\ concurrent_small_concurrent_ck0 = concurrent_small_concurrent_ks
        /\ concurrent_small_concurrent_cs0 = concurrent_small_concurrent_ss
        /\ concurrent_small_concurrent_job
          = [
            concurrent_small_concurrent_w_566 \in concurrent_small_concurrent_W |->
              concurrent_small_concurrent_IDLE
          ]
        /\ concurrent_small_concurrent_seen = <<>>

(*
  @type: (({ n: Int, o: Int, op: Str, p: Int }) => { elems: Set(Int), flag: Bool, key: { path: Seq(Int), priv: Bool, seed: Int, st: Int }, ok: Bool });
*)
concurrent_small_concurrent_alone(concurrent_small_concurrent_c_503) ==
  IF concurrent_small_concurrent_c_503["op"] = "child"
  THEN concurrent_small_concurrent_keyIf((concurrent_small_concurrent_childOk(concurrent_small_concurrent_ck[
    concurrent_small_concurrent_c_503["o"]
  ], concurrent_small_concurrent_c_503["n"], (concurrent_small_concurrent_HARD))),
  (concurrent_small_concurrent_child(concurrent_small_concurrent_ck[
    concurrent_small_concurrent_c_503["o"]
  ], concurrent_small_concurrent_c_503["n"])))
  ELSE IF concurrent_small_concurrent_c_503["op"] = "hard"
  THEN concurrent_small_concurrent_keyIf((concurrent_small_concurrent_hardOk(concurrent_small_concurrent_ck[
    concurrent_small_concurrent_c_503["o"]
  ], concurrent_small_concurrent_c_503["n"], (concurrent_small_concurrent_HARD))),
  (concurrent_small_concurrent_child(concurrent_small_concurrent_ck[
    concurrent_small_concurrent_c_503["o"]
  ], (concurrent_small_concurrent_c_503["n"] + concurrent_small_concurrent_HARD))))
  ELSE IF concurrent_small_concurrent_c_503["op"] = "public"
    \/ concurrent_small_concurrent_c_503["op"] = "spub"
  THEN concurrent_small_concurrent_keyIf(TRUE, (concurrent_small_concurrent_neuter(concurrent_small_concurrent_ck[
    concurrent_small_concurrent_c_503["o"]
  ])))
  ELSE IF concurrent_small_concurrent_c_503["op"] = "spriv"
  THEN concurrent_small_concurrent_keyIf(concurrent_small_concurrent_ck[
    concurrent_small_concurrent_c_503["o"]
  ][
    "priv"
  ], concurrent_small_concurrent_ck[concurrent_small_concurrent_c_503["o"]])
  ELSE IF concurrent_small_concurrent_c_503["op"] = "text"
    \/ concurrent_small_concurrent_c_503["op"] = "tosig"
  THEN concurrent_small_concurrent_keyIf(TRUE, concurrent_small_concurrent_ck[
    concurrent_small_concurrent_c_503["o"]
  ])
  ELSE IF concurrent_small_concurrent_c_503["op"] = "sign"
  THEN IF concurrent_small_concurrent_ck[concurrent_small_concurrent_c_503["o"]][
    "priv"
  ]
  THEN [
    (concurrent_small_concurrent_NORES) EXCEPT
      !["flag"] =
        concurrent_small_concurrent_neuter(concurrent_small_concurrent_ck[
          concurrent_small_concurrent_c_503["o"]
        ])
          = concurrent_small_concurrent_neuter(concurrent_small_concurrent_ck[
            concurrent_small_concurrent_c_503["p"]
          ])
  ]
  ELSE [ (concurrent_small_concurrent_NORES) EXCEPT !["ok"] = FALSE ]
  ELSE IF concurrent_small_concurrent_c_503["op"] = "inter"
  THEN [
    (concurrent_small_concurrent_NORES) EXCEPT
      !["elems"] =
        concurrent_small_concurrent_cs[concurrent_small_concurrent_c_503["o"]]
          \intersect concurrent_small_concurrent_cs[
            concurrent_small_concurrent_c_503["p"]
          ]
  ]
  ELSE IF concurrent_small_concurrent_c_503["op"] = "union"
  THEN [
    (concurrent_small_concurrent_NORES) EXCEPT
      !["elems"] =
        concurrent_small_concurrent_cs[concurrent_small_concurrent_c_503["o"]]
          \union concurrent_small_concurrent_cs[
            concurrent_small_concurrent_c_503["p"]
          ]
  ]
  ELSE IF concurrent_small_concurrent_c_503["op"] = "clone"
  THEN [
    (concurrent_small_concurrent_NORES) EXCEPT
      !["elems"] =
        concurrent_small_concurrent_cs[concurrent_small_concurrent_c_503["o"]]
  ]
  ELSE IF concurrent_small_concurrent_c_503["op"] = "equal"
  THEN [
    (concurrent_small_concurrent_NORES) EXCEPT
      !["flag"] =
        concurrent_small_concurrent_cs[concurrent_small_concurrent_c_503["o"]]
          = concurrent_small_concurrent_cs[
            concurrent_small_concurrent_c_503["p"]
          ]
  ]
  ELSE IF concurrent_small_concurrent_c_503["op"] = "subset"
  THEN [
    (concurrent_small_concurrent_NORES) EXCEPT
      !["flag"] =
        concurrent_small_concurrent_cs[concurrent_small_concurrent_c_503["o"]]
          \subseteq concurrent_small_concurrent_cs[
            concurrent_small_concurrent_c_503["p"]
          ]
  ]
  ELSE IF concurrent_small_concurrent_c_503["op"] = "less"
  THEN [
    (concurrent_small_concurrent_NORES) EXCEPT
      !["flag"] =
        concurrent_small_concurrent_less(concurrent_small_concurrent_cs[
          concurrent_small_concurrent_c_503["o"]
        ], concurrent_small_concurrent_cs[
          concurrent_small_concurrent_c_503["p"]
        ])
  ]
  ELSE concurrent_small_concurrent_NORES

(*
  @type: (() => Bool);
*)
concurrent_small_concurrent_Finish ==
  \E concurrent_small_concurrent_w \in concurrent_small_concurrent_W:
    concurrent_small_concurrent_job[concurrent_small_concurrent_w]["on"]
      /\ concurrent_small_concurrent_seen'
        := <<
          <<
            concurrent_small_concurrent_job[concurrent_small_concurrent_w][
              "call"
            ], concurrent_small_concurrent_job[concurrent_small_concurrent_w][
              "res"
            ]
          >>
        >>
      /\ concurrent_small_concurrent_job'
        := [
          concurrent_small_concurrent_job EXCEPT
            ![concurrent_small_concurrent_w] = concurrent_small_concurrent_IDLE
        ]
      /\ concurrent_small_concurrent_ck' := concurrent_small_concurrent_ck
      /\ concurrent_small_concurrent_cs' := concurrent_small_concurrent_cs
      /\ concurrent_small_concurrent_ck0' := concurrent_small_concurrent_ck0
      /\ concurrent_small_concurrent_cs0' := concurrent_small_concurrent_cs0

(*
  @type: (() => Bool);
*)
q_init == concurrent_small_concurrent_init

(*
  @type: ((Int, { n: Int, o: Int, op: Str, p: Int }) => Bool);
*)
concurrent_small_concurrent_start(concurrent_small_concurrent_w_619, concurrent_small_concurrent_c_619) ==
  ~(concurrent_small_concurrent_job[concurrent_small_concurrent_w_619]["on"])
    /\ concurrent_small_concurrent_job'
      := [
        concurrent_small_concurrent_job EXCEPT
          ![concurrent_small_concurrent_w_619] =
            [on |-> TRUE,
              call |-> concurrent_small_concurrent_c_619,
              res |->
                concurrent_small_concurrent_alone(concurrent_small_concurrent_c_619)]
      ]
    /\ concurrent_small_concurrent_ck' := concurrent_small_concurrent_ck
    /\ concurrent_small_concurrent_cs' := concurrent_small_concurrent_cs
    /\ concurrent_small_concurrent_ck0' := concurrent_small_concurrent_ck0
    /\ concurrent_small_concurrent_cs0' := concurrent_small_concurrent_cs0
    /\ concurrent_small_concurrent_seen' := <<>>

(*
  @type: (() => Bool);
*)
concurrent_small_concurrent_sequential ==
  \A concurrent_small_concurrent_i_775 \in LET (*
    @type: (() => Set(Int));
  *)
  __quint_var0 == DOMAIN concurrent_small_concurrent_seen
  IN
  IF __quint_var0 = {}
  THEN {}
  ELSE (__quint_var0 \union {0}) \ {(Len(concurrent_small_concurrent_seen))}:
    concurrent_small_concurrent_seen[(concurrent_small_concurrent_i_775 + 1)][2]
      = concurrent_small_concurrent_alone(concurrent_small_concurrent_seen[
        (concurrent_small_concurrent_i_775 + 1)
      ][
        1
      ])

(*
  @type: (() => Bool);
*)
concurrent_small_concurrent_running ==
  \A concurrent_small_concurrent_w_798 \in concurrent_small_concurrent_W:
    concurrent_small_concurrent_job[concurrent_small_concurrent_w_798]["on"]
      => concurrent_small_concurrent_job[concurrent_small_concurrent_w_798][
        "res"
      ]
        = concurrent_small_concurrent_alone(concurrent_small_concurrent_job[
          concurrent_small_concurrent_w_798
        ][
          "call"
        ])

(*
  @type: (() => Bool);
*)
concurrent_small_concurrent_OnKey ==
  \E concurrent_small_concurrent_w \in concurrent_small_concurrent_W:
    \E concurrent_small_concurrent_op \in concurrent_small_concurrent_KEYOPS:
      \E concurrent_small_concurrent_o \in concurrent_small_concurrent_KEYS:
        \E concurrent_small_concurrent_p \in concurrent_small_concurrent_KEYS:
          \E concurrent_small_concurrent_n \in concurrent_small_concurrent_NUMS:
            concurrent_small_concurrent_start(concurrent_small_concurrent_w, [op |->
                concurrent_small_concurrent_op,
              o |-> concurrent_small_concurrent_o,
              p |-> concurrent_small_concurrent_p,
              n |-> concurrent_small_concurrent_n])

(*
  @type: (() => Bool);
*)
concurrent_small_concurrent_OnSet ==
  \E concurrent_small_concurrent_w \in concurrent_small_concurrent_W:
    \E concurrent_small_concurrent_op \in concurrent_small_concurrent_SETOPS:
      \E concurrent_small_concurrent_o \in concurrent_small_concurrent_SETS:
        \E concurrent_small_concurrent_p \in concurrent_small_concurrent_SETS:
          concurrent_small_concurrent_start(concurrent_small_concurrent_w, [op |->
              concurrent_small_concurrent_op,
            o |-> concurrent_small_concurrent_o,
            p |-> concurrent_small_concurrent_p,
            n |-> 0])

(*
  @type: (() => Bool);
*)
concurrent_small_concurrent_Plain ==
  \E concurrent_small_concurrent_w \in concurrent_small_concurrent_W:
    \E concurrent_small_concurrent_n \in 0 .. concurrent_small_concurrent_PLAIN:
      concurrent_small_concurrent_start(concurrent_small_concurrent_w, [op |->
          "plain",
        o |-> 0,
        p |-> 0,
        n |-> concurrent_small_concurrent_n])

(*
  @type: (() => Bool);
*)
concurrent_small_concurrent_inv ==
  (concurrent_small_concurrent_unchanged
      /\ concurrent_small_concurrent_sequential)
    /\ concurrent_small_concurrent_running

(*
  @type: (() => Bool);
*)
concurrent_small_concurrent_step ==
  concurrent_small_concurrent_OnKey
    \/ concurrent_small_concurrent_OnSet
    \/ concurrent_small_concurrent_Plain
    \/ concurrent_small_concurrent_Finish

(*
  @type: (() => Bool);
*)
q_inv == concurrent_small_concurrent_inv

(*
  @type: (() => Bool);
*)
q_step == concurrent_small_concurrent_step

================================================================================
