---------------------------- MODULE lifecycle_small ----------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

VARIABLE
  (*
    @type: (Int -> { path: Seq(Int), priv: Bool, seed: Int, st: Int });
  *)
  lifecycle_small_lifecycle_heap

(*
  @type: (() => Set(Int));
*)
lifecycle_small_lifecycle_XV == 0 .. 1

(*
  @type: (() => { path: Seq(Int), priv: Bool, seed: Int, st: Int });
*)
lifecycle_small_lifecycle_ZERO ==
  [st |-> 0, seed |-> 0, path |-> <<>>, priv |-> FALSE]

VARIABLE
  (*
    @type: (Int -> Int);
  *)
  lifecycle_small_lifecycle_slot

VARIABLE
  (*
    @type: (Int -> { path: Seq(Int), priv: Bool, seed: Int, st: Int });
  *)
  lifecycle_small_lifecycle_sigs

(*
  @type: (() => Set(Int));
*)
lifecycle_small_lifecycle_SV == {0}

VARIABLE
  (*
    @type: Bool;
  *)
  lifecycle_small_lifecycle_ok

VARIABLE
  (*
    @type: Set(Int);
  *)
  lifecycle_small_lifecycle_frame

VARIABLE
  (*
    @type: (Int -> { path: Seq(Int), priv: Bool, seed: Int, st: Int });
  *)
  lifecycle_small_lifecycle_before

(*
  @type: (() => Set(Int));
*)
lifecycle_small_lifecycle_SEEDS == {0}

(*
  @type: (((Int -> { path: Seq(Int), priv: Bool, seed: Int, st: Int }), (Int -> Int)) => (Int -> { path: Seq(Int), priv: Bool, seed: Int, st: Int }));
*)
lifecycle_small_lifecycle_reachable(lifecycle_small_lifecycle_h_99, lifecycle_small_lifecycle_s_99) ==
  [
    lifecycle_small_lifecycle_o_97 \in
      {
        lifecycle_small_lifecycle_s_99[lifecycle_small_lifecycle_i_91]:
          lifecycle_small_lifecycle_i_91 \in
            DOMAIN lifecycle_small_lifecycle_s_99
      } |->
      lifecycle_small_lifecycle_h_99[lifecycle_small_lifecycle_o_97]
  ]

(*
  @type: ((Int) => { path: Seq(Int), priv: Bool, seed: Int, st: Int });
*)
lifecycle_small_lifecycle_master(lifecycle_small_lifecycle_s_875) ==
  [st |-> 1,
    seed |-> lifecycle_small_lifecycle_s_875,
    path |-> <<>>,
    priv |-> TRUE]

(*
  @type: (() => Set(Int));
*)
lifecycle_small_lifecycle_NUMS == { 1, 5 }

(*
  @type: (() => Int);
*)
lifecycle_small_lifecycle_DEEP == 1

(*
  @type: (({ path: Seq(Int), priv: Bool, seed: Int, st: Int }) => Bool);
*)
lifecycle_small_lifecycle_isKey(lifecycle_small_lifecycle_k_861) ==
  lifecycle_small_lifecycle_k_861["st"] = 1

(*
  @type: (() => Int);
*)
lifecycle_small_lifecycle_HARD == 4

(*
  @type: (({ path: Seq(Int), priv: Bool, seed: Int, st: Int }, Int) => { path: Seq(Int), priv: Bool, seed: Int, st: Int });
*)
lifecycle_small_lifecycle_child(lifecycle_small_lifecycle_k_918, lifecycle_small_lifecycle_n_918) ==
  [
    lifecycle_small_lifecycle_k_918 EXCEPT
      !["path"] =
        Append(lifecycle_small_lifecycle_k_918["path"], lifecycle_small_lifecycle_n_918)
  ]

(*
  @type: (({ path: Seq(Int), priv: Bool, seed: Int, st: Int }) => { path: Seq(Int), priv: Bool, seed: Int, st: Int });
*)
lifecycle_small_lifecycle_neuter(lifecycle_small_lifecycle_k_884) ==
  [ lifecycle_small_lifecycle_k_884 EXCEPT !["priv"] = FALSE ]

(*
  @type: (() => { path: Seq(Int), priv: Bool, seed: Int, st: Int });
*)
lifecycle_small_lifecycle_UNDEF ==
  [st |-> 2, seed |-> 0, path |-> <<>>, priv |-> FALSE]

(*
  @type: (() => Bool);
*)
lifecycle_small_lifecycle_init ==
  lifecycle_small_lifecycle_heap
      = [
        lifecycle_small_lifecycle_i_246 \in lifecycle_small_lifecycle_XV |->
          lifecycle_small_lifecycle_ZERO
      ]
    /\ lifecycle_small_lifecycle_slot
      = [
        lifecycle_small_lifecycle_i_253 \in lifecycle_small_lifecycle_XV |->
          lifecycle_small_lifecycle_i_253
      ]
    /\ lifecycle_small_lifecycle_sigs
      = [
        lifecycle_small_lifecycle_s_260 \in lifecycle_small_lifecycle_SV |->
          lifecycle_small_lifecycle_ZERO
      ]
    /\ lifecycle_small_lifecycle_ok = TRUE
    /\ lifecycle_small_lifecycle_frame = {}
    /\ lifecycle_small_lifecycle_before
      = [
        lifecycle_small_lifecycle_i_273 \in lifecycle_small_lifecycle_XV |->
          lifecycle_small_lifecycle_ZERO
      ]

(*
  @type: (() => Int);
*)
lifecycle_small_lifecycle_fresh ==
  LET (*
    @type: ((Int, Int) => Int);
  *)
  __QUINT_LAMBDA0(lifecycle_small_lifecycle_a_71, lifecycle_small_lifecycle_o_71) ==
    IF lifecycle_small_lifecycle_o_71 < lifecycle_small_lifecycle_a_71
    THEN lifecycle_small_lifecycle_o_71
    ELSE lifecycle_small_lifecycle_a_71
  IN
  ApaFoldSet(__QUINT_LAMBDA0, 99, {
    lifecycle_small_lifecycle_o_60 \in
      0 .. Cardinality((lifecycle_small_lifecycle_XV)):
      ~(lifecycle_small_lifecycle_o_60 \in DOMAIN lifecycle_small_lifecycle_heap)
  })

(*
  @type: ((Int) => { path: Seq(Int), priv: Bool, seed: Int, st: Int });
*)
lifecycle_small_lifecycle_obj(lifecycle_small_lifecycle_i_47) ==
  lifecycle_small_lifecycle_heap[
    lifecycle_small_lifecycle_slot[lifecycle_small_lifecycle_i_47]
  ]

(*
  @type: ((Bool) => Bool);
*)
lifecycle_small_lifecycle_keep(lifecycle_small_lifecycle_good_123) ==
  lifecycle_small_lifecycle_heap' := lifecycle_small_lifecycle_heap
    /\ lifecycle_small_lifecycle_slot' := lifecycle_small_lifecycle_slot
    /\ lifecycle_small_lifecycle_sigs' := lifecycle_small_lifecycle_sigs
    /\ lifecycle_small_lifecycle_ok' := lifecycle_small_lifecycle_good_123
    /\ lifecycle_small_lifecycle_frame' := {}
    /\ lifecycle_small_lifecycle_before' := lifecycle_small_lifecycle_heap

(*
  @type: (({ path: Seq(Int), priv: Bool, seed: Int, st: Int }, Int, Int) => Bool);
*)
lifecycle_small_lifecycle_childOk(lifecycle_small_lifecycle_k_903, lifecycle_small_lifecycle_n_903,
lifecycle_small_lifecycle_hard_903) ==
  lifecycle_small_lifecycle_isKey(lifecycle_small_lifecycle_k_903)
    /\ (lifecycle_small_lifecycle_k_903["priv"]
      \/ lifecycle_small_lifecycle_n_903 < lifecycle_small_lifecycle_hard_903)

(*
  @type: ((Int, { path: Seq(Int), priv: Bool, seed: Int, st: Int }, Bool) => Bool);
*)
lifecycle_small_lifecycle_assignObj(lifecycle_small_lifecycle_j_196, lifecycle_small_lifecycle_k_196,
lifecycle_small_lifecycle_good_196) ==
  lifecycle_small_lifecycle_heap'
      := [
        lifecycle_small_lifecycle_heap EXCEPT
          ![lifecycle_small_lifecycle_slot[lifecycle_small_lifecycle_j_196]] =
            lifecycle_small_lifecycle_k_196
      ]
    /\ lifecycle_small_lifecycle_slot' := lifecycle_small_lifecycle_slot
    /\ lifecycle_small_lifecycle_sigs' := lifecycle_small_lifecycle_sigs
    /\ lifecycle_small_lifecycle_ok' := lifecycle_small_lifecycle_good_196
    /\ lifecycle_small_lifecycle_frame'
      := {lifecycle_small_lifecycle_slot[lifecycle_small_lifecycle_j_196]}
    /\ lifecycle_small_lifecycle_before' := lifecycle_small_lifecycle_heap

(*
  @type: ((Int, { path: Seq(Int), priv: Bool, seed: Int, st: Int }) => Bool);
*)
lifecycle_small_lifecycle_setSig(lifecycle_small_lifecycle_s_225, lifecycle_small_lifecycle_k_225) ==
  lifecycle_small_lifecycle_sigs'
      := [
        lifecycle_small_lifecycle_sigs EXCEPT
          ![lifecycle_small_lifecycle_s_225] = lifecycle_small_lifecycle_k_225
      ]
    /\ lifecycle_small_lifecycle_heap' := lifecycle_small_lifecycle_heap
    /\ lifecycle_small_lifecycle_slot' := lifecycle_small_lifecycle_slot
    /\ lifecycle_small_lifecycle_ok' := TRUE
    /\ lifecycle_small_lifecycle_frame' := {}
    /\ lifecycle_small_lifecycle_before' := lifecycle_small_lifecycle_heap

(*
  @type: (() => Bool);
*)
lifecycle_small_lifecycle_refsOk ==
  \A lifecycle_small_lifecycle_i_699 \in lifecycle_small_lifecycle_XV:
    lifecycle_small_lifecycle_slot[lifecycle_small_lifecycle_i_699]
      \in DOMAIN lifecycle_small_lifecycle_heap

(*
  @type: (() => Bool);
*)
lifecycle_small_lifecycle_frameOk ==
  \A lifecycle_small_lifecycle_o_719 \in DOMAIN lifecycle_small_lifecycle_before
    \intersect DOMAIN lifecycle_small_lifecycle_heap:
    lifecycle_small_lifecycle_o_719 \in lifecycle_small_lifecycle_frame
      \/ lifecycle_small_lifecycle_heap[lifecycle_small_lifecycle_o_719]
        = lifecycle_small_lifecycle_before[lifecycle_small_lifecycle_o_719]

(*
  @type: (() => Bool);
*)
lifecycle_small_lifecycle_valuesOk ==
  \A lifecycle_small_lifecycle_o_744 \in DOMAIN lifecycle_small_lifecycle_heap:
    (lifecycle_small_lifecycle_heap[lifecycle_small_lifecycle_o_744]["st"] = 1
        \/ lifecycle_small_lifecycle_heap[lifecycle_small_lifecycle_o_744]
          = lifecycle_small_lifecycle_ZERO)
      \/ lifecycle_small_lifecycle_heap[lifecycle_small_lifecycle_o_744]
        = lifecycle_small_lifecycle_UNDEF

(*
  @type: (() => Bool);
*)
lifecycle_small_lifecycle_failuresHarmless ==
  ~lifecycle_small_lifecycle_ok
    => (\A lifecycle_small_lifecycle_o_763 \in DOMAIN lifecycle_small_lifecycle_heap:
      lifecycle_small_lifecycle_o_763 \in lifecycle_small_lifecycle_frame
        \/ lifecycle_small_lifecycle_heap[lifecycle_small_lifecycle_o_763]
          = lifecycle_small_lifecycle_before[lifecycle_small_lifecycle_o_763])

(*
  @type: (() => Bool);
*)
q_init == lifecycle_small_lifecycle_init

(*
  @type: ((Int, { path: Seq(Int), priv: Bool, seed: Int, st: Int }) => Bool);
*)
lifecycle_small_lifecycle_make(lifecycle_small_lifecycle_j_160, lifecycle_small_lifecycle_k_160) ==
  lifecycle_small_lifecycle_heap'
      := (LET (*
        @type: (() => (Int -> { path: Seq(Int), priv: Bool, seed: Int, st: Int }));
      *)
      __quint_var0 == lifecycle_small_lifecycle_heap
      IN
      lifecycle_small_lifecycle_reachable((LET (*
        @type: (() => Set(Int));
      *)
      __quint_var1 == DOMAIN __quint_var0
      IN
      [
        __quint_var2 \in {(lifecycle_small_lifecycle_fresh)} \union __quint_var1 |->
          IF __quint_var2 = lifecycle_small_lifecycle_fresh
          THEN lifecycle_small_lifecycle_k_160
          ELSE (__quint_var0)[__quint_var2]
      ]), [
        lifecycle_small_lifecycle_slot EXCEPT
          ![lifecycle_small_lifecycle_j_160] = lifecycle_small_lifecycle_fresh
      ]))
    /\ lifecycle_small_lifecycle_slot'
      := [
        lifecycle_small_lifecycle_slot EXCEPT
          ![lifecycle_small_lifecycle_j_160] = lifecycle_small_lifecycle_fresh
      ]
    /\ lifecycle_small_lifecycle_sigs' := lifecycle_small_lifecycle_sigs
    /\ lifecycle_small_lifecycle_ok' := TRUE
    /\ lifecycle_small_lifecycle_frame' := {}
    /\ lifecycle_small_lifecycle_before' := lifecycle_small_lifecycle_heap

(*
  @type: (({ path: Seq(Int), priv: Bool, seed: Int, st: Int }, Int, Int) => Bool);
*)
lifecycle_small_lifecycle_hardOk(lifecycle_small_lifecycle_k_937, lifecycle_small_lifecycle_n_937,
lifecycle_small_lifecycle_hard_937) ==
  lifecycle_small_lifecycle_n_937 < lifecycle_small_lifecycle_hard_937
    /\ lifecycle_small_lifecycle_childOk(lifecycle_small_lifecycle_k_937, (lifecycle_small_lifecycle_n_937
      + lifecycle_small_lifecycle_hard_937), lifecycle_small_lifecycle_hard_937)

(*
  @type: (() => Bool);
*)
lifecycle_small_lifecycle_Look ==
  \E lifecycle_small_lifecycle_i \in lifecycle_small_lifecycle_XV:
    lifecycle_small_lifecycle_isKey((lifecycle_small_lifecycle_obj(lifecycle_small_lifecycle_i)))
      /\ lifecycle_small_lifecycle_keep(TRUE)

(*
  @type: (() => Bool);
*)
lifecycle_small_lifecycle_Zero ==
  \E lifecycle_small_lifecycle_j \in lifecycle_small_lifecycle_XV:
    lifecycle_small_lifecycle_assignObj(lifecycle_small_lifecycle_j, (lifecycle_small_lifecycle_ZERO),
    TRUE)

(*
  @type: (() => Bool);
*)
lifecycle_small_lifecycle_ParseInto ==
  \E lifecycle_small_lifecycle_i \in lifecycle_small_lifecycle_XV:
    \E lifecycle_small_lifecycle_j \in lifecycle_small_lifecycle_XV:
      lifecycle_small_lifecycle_isKey((lifecycle_small_lifecycle_obj(lifecycle_small_lifecycle_i)))
        /\ lifecycle_small_lifecycle_assignObj(lifecycle_small_lifecycle_j, (lifecycle_small_lifecycle_obj(lifecycle_small_lifecycle_i)),
        TRUE)

(*
  @type: (() => Bool);
*)
lifecycle_small_lifecycle_ParseBad ==
  \E lifecycle_small_lifecycle_j \in lifecycle_small_lifecycle_XV:
    \E lifecycle_small_lifecycle_n \in { 0, 1, 2, 3, 4 }:
      lifecycle_small_lifecycle_assignObj(lifecycle_small_lifecycle_j, (lifecycle_small_lifecycle_UNDEF),
      FALSE)

(*
  @type: (() => Bool);
*)
lifecycle_small_lifecycle_ToSig ==
  \E lifecycle_small_lifecycle_i \in lifecycle_small_lifecycle_XV:
    \E lifecycle_small_lifecycle_s \in lifecycle_small_lifecycle_SV:
      lifecycle_small_lifecycle_isKey((lifecycle_small_lifecycle_obj(lifecycle_small_lifecycle_i)))
        /\ lifecycle_small_lifecycle_setSig(lifecycle_small_lifecycle_s, (lifecycle_small_lifecycle_obj(lifecycle_small_lifecycle_i)))

(*
  @type: (() => Bool);
*)
lifecycle_small_lifecycle_SPub ==
  \E lifecycle_small_lifecycle_i \in lifecycle_small_lifecycle_XV:
    \E lifecycle_small_lifecycle_s \in lifecycle_small_lifecycle_SV:
      lifecycle_small_lifecycle_isKey((lifecycle_small_lifecycle_obj(lifecycle_small_lifecycle_i)))
        /\ lifecycle_small_lifecycle_setSig(lifecycle_small_lifecycle_s, (lifecycle_small_lifecycle_neuter((lifecycle_small_lifecycle_obj(lifecycle_small_lifecycle_i)))))

(*
  @type: (() => Bool);
*)
lifecycle_small_lifecycle_SPriv ==
  \E lifecycle_small_lifecycle_i \in lifecycle_small_lifecycle_XV:
    \E lifecycle_small_lifecycle_s \in lifecycle_small_lifecycle_SV:
      lifecycle_small_lifecycle_isKey((lifecycle_small_lifecycle_obj(lifecycle_small_lifecycle_i)))
        /\ (IF (lifecycle_small_lifecycle_obj(lifecycle_small_lifecycle_i))[
          "priv"
        ]
        THEN lifecycle_small_lifecycle_setSig(lifecycle_small_lifecycle_s, (lifecycle_small_lifecycle_obj(lifecycle_small_lifecycle_i)))
        ELSE lifecycle_small_lifecycle_keep(FALSE))

(*
  @type: (() => Bool);
*)
lifecycle_small_lifecycle_FromSigInto ==
  \E lifecycle_small_lifecycle_s \in lifecycle_small_lifecycle_SV:
    \E lifecycle_small_lifecycle_j \in lifecycle_small_lifecycle_XV:
      IF lifecycle_small_lifecycle_isKey(lifecycle_small_lifecycle_sigs[
        lifecycle_small_lifecycle_s
      ])
      THEN lifecycle_small_lifecycle_assignObj(lifecycle_small_lifecycle_j, lifecycle_small_lifecycle_sigs[
        lifecycle_small_lifecycle_s
      ], TRUE)
      ELSE lifecycle_small_lifecycle_assignObj(lifecycle_small_lifecycle_j, (lifecycle_small_lifecycle_UNDEF),
      FALSE)

(*
  @type: (() => Bool);
*)
lifecycle_small_lifecycle_ZeroSig ==
  \E lifecycle_small_lifecycle_s \in lifecycle_small_lifecycle_SV:
    lifecycle_small_lifecycle_setSig(lifecycle_small_lifecycle_s, (lifecycle_small_lifecycle_ZERO))

(*
  @type: (() => Bool);
*)
lifecycle_small_lifecycle_SigParse ==
  \E lifecycle_small_lifecycle_i \in lifecycle_small_lifecycle_XV:
    \E lifecycle_small_lifecycle_s \in lifecycle_small_lifecycle_SV:
      lifecycle_small_lifecycle_isKey((lifecycle_small_lifecycle_obj(lifecycle_small_lifecycle_i)))
        /\ lifecycle_small_lifecycle_setSig(lifecycle_small_lifecycle_s, (lifecycle_small_lifecycle_obj(lifecycle_small_lifecycle_i)))

(*
  @type: (() => Bool);
*)
lifecycle_small_lifecycle_inv ==
  ((lifecycle_small_lifecycle_refsOk /\ lifecycle_small_lifecycle_frameOk)
      /\ lifecycle_small_lifecycle_valuesOk)
    /\ lifecycle_small_lifecycle_failuresHarmless

(*
  @type: (() => Bool);
*)
lifecycle_small_lifecycle_Master ==
  \E lifecycle_small_lifecycle_i \in lifecycle_small_lifecycle_XV:
    \E lifecycle_small_lifecycle_s \in lifecycle_small_lifecycle_SEEDS:
      lifecycle_small_lifecycle_make(lifecycle_small_lifecycle_i, (lifecycle_small_lifecycle_master(lifecycle_small_lifecycle_s)))

(*
  @type: ((Bool, Int, { path: Seq(Int), priv: Bool, seed: Int, st: Int }) => Bool);
*)
lifecycle_small_lifecycle_makeOr(lifecycle_small_lifecycle_good_241, lifecycle_small_lifecycle_j_241,
lifecycle_small_lifecycle_k_241) ==
  IF lifecycle_small_lifecycle_good_241
  THEN lifecycle_small_lifecycle_make(lifecycle_small_lifecycle_j_241, lifecycle_small_lifecycle_k_241)
  ELSE lifecycle_small_lifecycle_keep(FALSE)

(*
  @type: (() => Bool);
*)
lifecycle_small_lifecycle_Pub ==
  \E lifecycle_small_lifecycle_i \in lifecycle_small_lifecycle_XV:
    \E lifecycle_small_lifecycle_j \in lifecycle_small_lifecycle_XV:
      lifecycle_small_lifecycle_isKey((lifecycle_small_lifecycle_obj(lifecycle_small_lifecycle_i)))
        /\ (IF (lifecycle_small_lifecycle_obj(lifecycle_small_lifecycle_i))[
          "priv"
        ]
        THEN lifecycle_small_lifecycle_make(lifecycle_small_lifecycle_j, (lifecycle_small_lifecycle_neuter((lifecycle_small_lifecycle_obj(lifecycle_small_lifecycle_i)))))
        ELSE lifecycle_small_lifecycle_slot'
            := [
              lifecycle_small_lifecycle_slot EXCEPT
                ![lifecycle_small_lifecycle_j] =
                  lifecycle_small_lifecycle_slot[lifecycle_small_lifecycle_i]
            ]
          /\ lifecycle_small_lifecycle_heap'
            := (lifecycle_small_lifecycle_reachable(lifecycle_small_lifecycle_heap,
            [
              lifecycle_small_lifecycle_slot EXCEPT
                ![lifecycle_small_lifecycle_j] =
                  lifecycle_small_lifecycle_slot[lifecycle_small_lifecycle_i]
            ]))
          /\ lifecycle_small_lifecycle_sigs' := lifecycle_small_lifecycle_sigs
          /\ lifecycle_small_lifecycle_ok' := TRUE
          /\ lifecycle_small_lifecycle_frame' := {}
          /\ lifecycle_small_lifecycle_before' := lifecycle_small_lifecycle_heap)

(*
  @type: (() => Bool);
*)
lifecycle_small_lifecycle_Raw ==
  \E lifecycle_small_lifecycle_i \in lifecycle_small_lifecycle_XV:
    \E lifecycle_small_lifecycle_j \in lifecycle_small_lifecycle_XV:
      lifecycle_small_lifecycle_isKey((lifecycle_small_lifecycle_obj(lifecycle_small_lifecycle_i)))
        /\ lifecycle_small_lifecycle_make(lifecycle_small_lifecycle_j, (lifecycle_small_lifecycle_obj(lifecycle_small_lifecycle_i)))

(*
  @type: (() => Bool);
*)
q_inv == lifecycle_small_lifecycle_inv

(*
  @type: (() => Bool);
*)
lifecycle_small_lifecycle_Child ==
  \E lifecycle_small_lifecycle_i \in lifecycle_small_lifecycle_XV:
    \E lifecycle_small_lifecycle_j \in lifecycle_small_lifecycle_XV:
      \E lifecycle_small_lifecycle_n \in lifecycle_small_lifecycle_NUMS:
        (lifecycle_small_lifecycle_obj(lifecycle_small_lifecycle_i))["st"] /= 2
          /\ Len((lifecycle_small_lifecycle_obj(lifecycle_small_lifecycle_i))[
            "path"
          ])
            < lifecycle_small_lifecycle_DEEP
          /\ lifecycle_small_lifecycle_makeOr((lifecycle_small_lifecycle_childOk((lifecycle_small_lifecycle_obj(lifecycle_small_lifecycle_i)),
          lifecycle_small_lifecycle_n, (lifecycle_small_lifecycle_HARD))), lifecycle_small_lifecycle_j,
          (lifecycle_small_lifecycle_child((lifecycle_small_lifecycle_obj(lifecycle_small_lifecycle_i)),
          lifecycle_small_lifecycle_n)))

(*
  @type: (() => Bool);
*)
lifecycle_small_lifecycle_Hard ==
  \E lifecycle_small_lifecycle_i \in lifecycle_small_lifecycle_XV:
    \E lifecycle_small_lifecycle_j \in lifecycle_small_lifecycle_XV:
      \E lifecycle_small_lifecycle_n \in lifecycle_small_lifecycle_NUMS:
        (lifecycle_small_lifecycle_obj(lifecycle_small_lifecycle_i))["st"] /= 2
          /\ Len((lifecycle_small_lifecycle_obj(lifecycle_small_lifecycle_i))[
            "path"
          ])
            < lifecycle_small_lifecycle_DEEP
          /\ lifecycle_small_lifecycle_makeOr((lifecycle_small_lifecycle_hardOk((lifecycle_small_lifecycle_obj(lifecycle_small_lifecycle_i)),
          lifecycle_small_lifecycle_n, (lifecycle_small_lifecycle_HARD))), lifecycle_small_lifecycle_j,
          (lifecycle_small_lifecycle_child((lifecycle_small_lifecycle_obj(lifecycle_small_lifecycle_i)),
          (lifecycle_small_lifecycle_n + lifecycle_small_lifecycle_HARD))))

(*
  @type: (() => Bool);
*)
lifecycle_small_lifecycle_Derive ==
  \E lifecycle_small_lifecycle_i \in lifecycle_small_lifecycle_XV:
    \E lifecycle_small_lifecycle_j \in lifecycle_small_lifecycle_XV:
      \E lifecycle_small_lifecycle_n \in lifecycle_small_lifecycle_NUMS:
        \E lifecycle_small_lifecycle_m \in lifecycle_small_lifecycle_NUMS:
          lifecycle_small_lifecycle_isKey((lifecycle_small_lifecycle_obj(lifecycle_small_lifecycle_i)))
            /\ Len((lifecycle_small_lifecycle_obj(lifecycle_small_lifecycle_i))[
              "path"
            ])
              + 1
              < lifecycle_small_lifecycle_DEEP
            /\ lifecycle_small_lifecycle_makeOr((lifecycle_small_lifecycle_childOk((lifecycle_small_lifecycle_obj(lifecycle_small_lifecycle_i)),
              lifecycle_small_lifecycle_n, (lifecycle_small_lifecycle_HARD))
              /\ lifecycle_small_lifecycle_childOk((lifecycle_small_lifecycle_obj(lifecycle_small_lifecycle_i)),
              lifecycle_small_lifecycle_m, (lifecycle_small_lifecycle_HARD))), lifecycle_small_lifecycle_j,
            (lifecycle_small_lifecycle_child((lifecycle_small_lifecycle_child((lifecycle_small_lifecycle_obj(lifecycle_small_lifecycle_i)),
            lifecycle_small_lifecycle_n)), lifecycle_small_lifecycle_m)))

(*
  @type: (() => Bool);
*)
lifecycle_small_lifecycle_FromSigNew ==
  \E lifecycle_small_lifecycle_s \in lifecycle_small_lifecycle_SV:
    \E lifecycle_small_lifecycle_j \in lifecycle_small_lifecycle_XV:
      lifecycle_small_lifecycle_makeOr((lifecycle_small_lifecycle_isKey(lifecycle_small_lifecycle_sigs[
        lifecycle_small_lifecycle_s
      ])), lifecycle_small_lifecycle_j, lifecycle_small_lifecycle_sigs[
        lifecycle_small_lifecycle_s
      ])

(*
  @type: (() => Bool);
*)
lifecycle_small_lifecycle_step ==
  lifecycle_small_lifecycle_Master
    \/ lifecycle_small_lifecycle_Child
    \/ lifecycle_small_lifecycle_Hard
    \/ lifecycle_small_lifecycle_Derive
    \/ lifecycle_small_lifecycle_Pub
    \/ lifecycle_small_lifecycle_Raw
    \/ lifecycle_small_lifecycle_Look
    \/ lifecycle_small_lifecycle_Zero
    \/ lifecycle_small_lifecycle_ParseInto
    \/ lifecycle_small_lifecycle_ParseBad
    \/ lifecycle_small_lifecycle_ToSig
    \/ lifecycle_small_lifecycle_SPub
    \/ lifecycle_small_lifecycle_SPriv
    \/ lifecycle_small_lifecycle_FromSigNew
    \/ lifecycle_small_lifecycle_FromSigInto
    \/ lifecycle_small_lifecycle_ZeroSig
    \/ lifecycle_small_lifecycle_SigParse

(*
  @type: (() => Bool);
*)
q_step == lifecycle_small_lifecycle_step

================================================================================
