----------------------------- MODULE facade_small -----------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

VARIABLE
  (*
    @type: (Int -> { form: Int, k: { path: Seq(Int), priv: Bool, seed: Int, st: Int } });
  *)
  facade_small_facade_s

(*
  @type: (() => Set(Int));
*)
facade_small_facade_XV == 0 .. 1

(*
  @type: (() => { path: Seq(Int), priv: Bool, seed: Int, st: Int });
*)
facade_small_facade_ZERO ==
  [st |-> 0, seed |-> 0, path |-> <<>>, priv |-> FALSE]

(*
  @type: (() => Int);
*)
facade_small_facade_BAD == 3

VARIABLE
  (*
    @type: Bool;
  *)
  facade_small_facade_ok

(*
  @type: (() => Int);
*)
facade_small_facade_NEW == 0

(*
  @type: ((Int) => { path: Seq(Int), priv: Bool, seed: Int, st: Int });
*)
facade_small_facade_master(facade_small_facade_s_777) ==
  [st |-> 1, seed |-> facade_small_facade_s_777, path |-> <<>>, priv |-> TRUE]

(*
  @type: (() => Int);
*)
facade_small_facade_OLD == 1

(*
  @type: (() => Set(Int));
*)
facade_small_facade_NUMS == { (-1), 1 }

(*
  @type: (() => Int);
*)
facade_small_facade_DEEP == 2

(*
  @type: (({ path: Seq(Int), priv: Bool, seed: Int, st: Int }) => Bool);
*)
facade_small_facade_isKey(facade_small_facade_k_763) ==
  facade_small_facade_k_763["st"] = 1

(*
  @type: (() => Int);
*)
facade_small_facade_HARD == 4

(*
  @type: (({ path: Seq(Int), priv: Bool, seed: Int, st: Int }, Int) => { path: Seq(Int), priv: Bool, seed: Int, st: Int });
*)
facade_small_facade_child(facade_small_facade_k_820, facade_small_facade_n_820) ==
  [
    facade_small_facade_k_820 EXCEPT
      !["path"] =
        Append(facade_small_facade_k_820["path"], facade_small_facade_n_820)
  ]

(*
  @type: (() => Int);
*)
facade_small_facade_CASED == 2

(*
  @type: (({ path: Seq(Int), priv: Bool, seed: Int, st: Int }) => { path: Seq(Int), priv: Bool, seed: Int, st: Int });
*)
facade_small_facade_neuter(facade_small_facade_k_786) ==
  [ facade_small_facade_k_786 EXCEPT !["priv"] = FALSE ]

(*
  @type: (() => { form: Int, k: { path: Seq(Int), priv: Bool, seed: Int, st: Int } });
*)
facade_small_facade_JUNK ==
  [k |-> facade_small_facade_ZERO, form |-> facade_small_facade_BAD]

(*
  @type: ((Int, { form: Int, k: { path: Seq(Int), priv: Bool, seed: Int, st: Int } }) => Bool);
*)
facade_small_facade_assignText(facade_small_facade_j_74, facade_small_facade_t_74) ==
  facade_small_facade_s'
      := [
        facade_small_facade_s EXCEPT
          ![facade_small_facade_j_74] = facade_small_facade_t_74
      ]
    /\ facade_small_facade_ok' := TRUE

(*
  @type: ((Bool) => Bool);
*)
facade_small_facade_keep(facade_small_facade_good_57) ==
  facade_small_facade_s' := facade_small_facade_s
    /\ facade_small_facade_ok' := facade_small_facade_good_57

(*
  @type: (({ path: Seq(Int), priv: Bool, seed: Int, st: Int }) => { form: Int, k: { path: Seq(Int), priv: Bool, seed: Int, st: Int } });
*)
facade_small_facade_text(facade_small_facade_k_39) ==
  [k |-> facade_small_facade_k_39, form |-> facade_small_facade_NEW]

(*
  @type: ((Int) => { form: Int, k: { path: Seq(Int), priv: Bool, seed: Int, st: Int } });
*)
facade_small_facade_at(facade_small_facade_i_98) ==
  facade_small_facade_s[facade_small_facade_i_98]

(*
  @type: (({ path: Seq(Int), priv: Bool, seed: Int, st: Int }, Int, Int) => Bool);
*)
facade_small_facade_childOk(facade_small_facade_k_805, facade_small_facade_n_805,
facade_small_facade_hard_805) ==
  facade_small_facade_isKey(facade_small_facade_k_805)
    /\ (facade_small_facade_k_805["priv"]
      \/ facade_small_facade_n_805 < facade_small_facade_hard_805)

(*
  @type: (() => Bool);
*)
facade_small_facade_init ==
  facade_small_facade_s
      = [
        facade_small_facade_i_132 \in facade_small_facade_XV |->
          facade_small_facade_JUNK
      ]
    /\ facade_small_facade_ok = TRUE

(*
  @type: ((Bool, Int, { form: Int, k: { path: Seq(Int), priv: Bool, seed: Int, st: Int } }) => Bool);
*)
facade_small_facade_yields(facade_small_facade_good_90, facade_small_facade_j_90,
facade_small_facade_t_90) ==
  IF facade_small_facade_good_90
  THEN facade_small_facade_assignText(facade_small_facade_j_90, facade_small_facade_t_90)
  ELSE facade_small_facade_keep(FALSE)

(*
  @type: (({ path: Seq(Int), priv: Bool, seed: Int, st: Int }, Int, Int) => Bool);
*)
facade_small_facade_hardOk(facade_small_facade_k_839, facade_small_facade_n_839,
facade_small_facade_hard_839) ==
  facade_small_facade_n_839 < facade_small_facade_hard_839
    /\ facade_small_facade_childOk(facade_small_facade_k_839, (facade_small_facade_n_839
      + facade_small_facade_hard_839), facade_small_facade_hard_839)

(*
  @type: ((Int) => Bool);
*)
facade_small_facade_open(facade_small_facade_i_109) ==
  (facade_small_facade_at(facade_small_facade_i_109))["form"]
    /= facade_small_facade_OLD

(*
  @type: ((Int) => Bool);
*)
facade_small_facade_good(facade_small_facade_i_127) ==
  (facade_small_facade_at(facade_small_facade_i_127))["form"]
      = facade_small_facade_NEW
    \/ (facade_small_facade_at(facade_small_facade_i_127))["form"]
      = facade_small_facade_CASED

(*
  @type: (() => Bool);
*)
facade_small_facade_Spoil ==
  \E facade_small_facade_j \in facade_small_facade_XV:
    \E facade_small_facade_n \in 0 .. 7:
      facade_small_facade_assignText(facade_small_facade_j, (facade_small_facade_JUNK))

(*
  @type: (() => Bool);
*)
facade_small_facade_CopyText ==
  \E facade_small_facade_i \in facade_small_facade_XV:
    \E facade_small_facade_j \in facade_small_facade_XV:
      facade_small_facade_assignText(facade_small_facade_j, (facade_small_facade_at(facade_small_facade_i)))

(*
  @type: (() => Bool);
*)
facade_small_facade_typed ==
  \A facade_small_facade_i_683 \in facade_small_facade_XV:
    (facade_small_facade_at(facade_small_facade_i_683))["form"]
        = facade_small_facade_BAD
      \/ facade_small_facade_isKey((facade_small_facade_at(facade_small_facade_i_683))[
        "k"
      ])

(*
  @type: (() => Bool);
*)
q_init == facade_small_facade_init

(*
  @type: (() => Bool);
*)
facade_small_facade_NewKey ==
  \E facade_small_facade_j \in facade_small_facade_XV:
    \E facade_small_facade_n \in 0 .. 16:
      facade_small_facade_yields(((((facade_small_facade_n /= 4
              /\ facade_small_facade_n /= 5)
            /\ facade_small_facade_n /= 6)
          /\ facade_small_facade_n /= 7)
        /\ facade_small_facade_n < 12), facade_small_facade_j, (facade_small_facade_text((facade_small_facade_master((facade_small_facade_n
        % 4))))))

(*
  @type: (() => Bool);
*)
facade_small_facade_FromString ==
  \E facade_small_facade_i \in facade_small_facade_XV:
    \E facade_small_facade_j \in facade_small_facade_XV:
      facade_small_facade_yields(((facade_small_facade_at(facade_small_facade_i))[
        "form"
      ]
        /= facade_small_facade_BAD), facade_small_facade_j, (facade_small_facade_text((facade_small_facade_at(facade_small_facade_i))[
        "k"
      ])))

(*
  @type: (() => Bool);
*)
facade_small_facade_FromOldString ==
  \E facade_small_facade_i \in facade_small_facade_XV:
    \E facade_small_facade_j \in facade_small_facade_XV:
      facade_small_facade_yields(((facade_small_facade_at(facade_small_facade_i))[
        "form"
      ]
        = facade_small_facade_OLD), facade_small_facade_j, (facade_small_facade_text((facade_small_facade_at(facade_small_facade_i))[
        "k"
      ])))

(*
  @type: (() => Bool);
*)
facade_small_facade_DeriveFrom ==
  \E facade_small_facade_i \in facade_small_facade_XV:
    \E facade_small_facade_j \in facade_small_facade_XV:
      \E facade_small_facade_n \in facade_small_facade_NUMS:
        \E facade_small_facade_m \in facade_small_facade_NUMS:
          facade_small_facade_n >= 0
            /\ facade_small_facade_m >= 0
            /\ Len((facade_small_facade_at(facade_small_facade_i))["k"]["path"])
              + 1
              < facade_small_facade_DEEP
            /\ facade_small_facade_yields((((facade_small_facade_at(facade_small_facade_i))[
                  "form"
                ]
                  /= facade_small_facade_BAD
                /\ facade_small_facade_childOk((facade_small_facade_at(facade_small_facade_i))[
                  "k"
                ], facade_small_facade_n, (facade_small_facade_HARD)))
              /\ facade_small_facade_childOk((facade_small_facade_at(facade_small_facade_i))[
                "k"
              ], facade_small_facade_m, (facade_small_facade_HARD))), facade_small_facade_j,
            (facade_small_facade_text((facade_small_facade_child((facade_small_facade_child((facade_small_facade_at(facade_small_facade_i))[
              "k"
            ], facade_small_facade_n)), facade_small_facade_m)))))

(*
  @type: (() => Bool);
*)
facade_small_facade_DeriveHard ==
  \E facade_small_facade_i \in facade_small_facade_XV:
    \E facade_small_facade_j \in facade_small_facade_XV:
      \E facade_small_facade_n \in facade_small_facade_NUMS:
        facade_small_facade_n >= 0
          /\ Len((facade_small_facade_at(facade_small_facade_i))["k"]["path"])
            < facade_small_facade_DEEP
          /\ facade_small_facade_yields(((facade_small_facade_at(facade_small_facade_i))[
              "form"
            ]
              /= facade_small_facade_BAD
            /\ facade_small_facade_hardOk((facade_small_facade_at(facade_small_facade_i))[
              "k"
            ], facade_small_facade_n, (facade_small_facade_HARD))), facade_small_facade_j,
          (facade_small_facade_text((facade_small_facade_child((facade_small_facade_at(facade_small_facade_i))[
            "k"
          ], (facade_small_facade_n + facade_small_facade_HARD))))))

(*
  @type: (() => Bool);
*)
facade_small_facade_ToPublic ==
  \E facade_small_facade_i \in facade_small_facade_XV:
    \E facade_small_facade_j \in facade_small_facade_XV:
      facade_small_facade_open(facade_small_facade_i)
        /\ facade_small_facade_yields((facade_small_facade_good(facade_small_facade_i)),
        facade_small_facade_j, (facade_small_facade_text((facade_small_facade_neuter((facade_small_facade_at(facade_small_facade_i))[
          "k"
        ])))))

(*
  @type: (() => Bool);
*)
facade_small_facade_Child ==
  \E facade_small_facade_i \in facade_small_facade_XV:
    \E facade_small_facade_j \in facade_small_facade_XV:
      \E facade_small_facade_n \in facade_small_facade_NUMS:
        facade_small_facade_open(facade_small_facade_i)
          /\ Len((facade_small_facade_at(facade_small_facade_i))["k"]["path"])
            < facade_small_facade_DEEP
          /\ facade_small_facade_yields(((facade_small_facade_n >= 0
              /\ facade_small_facade_good(facade_small_facade_i))
            /\ facade_small_facade_childOk((facade_small_facade_at(facade_small_facade_i))[
              "k"
            ], facade_small_facade_n, (facade_small_facade_HARD))), facade_small_facade_j,
          (facade_small_facade_text((facade_small_facade_child((facade_small_facade_at(facade_small_facade_i))[
            "k"
          ], facade_small_facade_n)))))

(*
  @type: (() => Bool);
*)
facade_small_facade_HardenedChild ==
  \E facade_small_facade_i \in facade_small_facade_XV:
    \E facade_small_facade_j \in facade_small_facade_XV:
      \E facade_small_facade_n \in facade_small_facade_NUMS:
        facade_small_facade_open(facade_small_facade_i)
          /\ Len((facade_small_facade_at(facade_small_facade_i))["k"]["path"])
            < facade_small_facade_DEEP
          /\ facade_small_facade_yields(((facade_small_facade_n >= 0
              /\ facade_small_facade_good(facade_small_facade_i))
            /\ facade_small_facade_hardOk((facade_small_facade_at(facade_small_facade_i))[
              "k"
            ], facade_small_facade_n, (facade_small_facade_HARD))), facade_small_facade_j,
          (facade_small_facade_text((facade_small_facade_child((facade_small_facade_at(facade_small_facade_i))[
            "k"
          ], (facade_small_facade_n + facade_small_facade_HARD))))))

(*
  @type: (() => Bool);
*)
facade_small_facade_ViaExtended ==
  \E facade_small_facade_i \in facade_small_facade_XV:
    \E facade_small_facade_j \in facade_small_facade_XV:
      facade_small_facade_open(facade_small_facade_i)
        /\ facade_small_facade_yields((facade_small_facade_good(facade_small_facade_i)),
        facade_small_facade_j, (facade_small_facade_text((facade_small_facade_at(facade_small_facade_i))[
          "k"
        ])))

(*
  @type: (() => Bool);
*)
facade_small_facade_ViaPublicKey ==
  \E facade_small_facade_i \in facade_small_facade_XV:
    \E facade_small_facade_j \in facade_small_facade_XV:
      facade_small_facade_open(facade_small_facade_i)
        /\ facade_small_facade_yields((facade_small_facade_good(facade_small_facade_i)),
        facade_small_facade_j, (facade_small_facade_text((facade_small_facade_neuter((facade_small_facade_at(facade_small_facade_i))[
          "k"
        ])))))

(*
  @type: (() => Bool);
*)
facade_small_facade_ViaPrivateKey ==
  \E facade_small_facade_i \in facade_small_facade_XV:
    \E facade_small_facade_j \in facade_small_facade_XV:
      facade_small_facade_open(facade_small_facade_i)
        /\ facade_small_facade_yields((facade_small_facade_good(facade_small_facade_i)
          /\ (facade_small_facade_at(facade_small_facade_i))["k"]["priv"]), facade_small_facade_j,
        (facade_small_facade_text((facade_small_facade_at(facade_small_facade_i))[
          "k"
        ])))

(*
  @type: (() => Bool);
*)
facade_small_facade_IsPrivate ==
  \E facade_small_facade_i \in facade_small_facade_XV:
    facade_small_facade_open(facade_small_facade_i)
      /\ facade_small_facade_keep((facade_small_facade_good(facade_small_facade_i)))

(*
  @type: (() => Bool);
*)
facade_small_facade_NdauAddress ==
  \E facade_small_facade_i \in facade_small_facade_XV:
    facade_small_facade_open(facade_small_facade_i)
      /\ facade_small_facade_keep((facade_small_facade_good(facade_small_facade_i)))

(*
  @type: (() => Bool);
*)
facade_small_facade_Sign ==
  \E facade_small_facade_i \in facade_small_facade_XV:
    \E facade_small_facade_n \in 0 .. 11:
      facade_small_facade_open(facade_small_facade_i)
        /\ facade_small_facade_keep(((facade_small_facade_good(facade_small_facade_i)
            /\ (facade_small_facade_at(facade_small_facade_i))["k"]["priv"])
          /\ facade_small_facade_n < 6))

(*
  @type: (() => Bool);
*)
facade_small_facade_Recase ==
  \E facade_small_facade_i \in facade_small_facade_XV:
    \E facade_small_facade_n \in 0 .. 2:
      facade_small_facade_good(facade_small_facade_i)
        /\ facade_small_facade_assignText(facade_small_facade_i, [
          (facade_small_facade_at(facade_small_facade_i)) EXCEPT
            !["form"] = facade_small_facade_CASED
        ])

(*
  @type: (() => Bool);
*)
facade_small_facade_Outdate ==
  \E facade_small_facade_i \in facade_small_facade_XV:
    \E facade_small_facade_j \in facade_small_facade_XV:
      facade_small_facade_good(facade_small_facade_i)
        /\ facade_small_facade_assignText(facade_small_facade_j, [
          (facade_small_facade_at(facade_small_facade_i)) EXCEPT
            !["form"] = facade_small_facade_OLD
        ])

(*
  @type: (() => Bool);
*)
facade_small_facade_inv == facade_small_facade_typed

(*
  @type: (() => Bool);
*)
facade_small_facade_step ==
  facade_small_facade_NewKey
    \/ facade_small_facade_FromString
    \/ facade_small_facade_FromOldString
    \/ facade_small_facade_DeriveFrom
    \/ facade_small_facade_DeriveHard
    \/ facade_small_facade_ToPublic
    \/ facade_small_facade_Child
    \/ facade_small_facade_HardenedChild
    \/ facade_small_facade_ViaExtended
    \/ facade_small_facade_ViaPublicKey
    \/ facade_small_facade_ViaPrivateKey
    \/ facade_small_facade_IsPrivate
    \/ facade_small_facade_NdauAddress
    \/ facade_small_facade_Sign
    \/ facade_small_facade_Recase
    \/ facade_small_facade_Outdate
    \/ facade_small_facade_Spoil
    \/ facade_small_facade_CopyText

(*
  @type: (() => Bool);
*)
q_inv == facade_small_facade_inv

(*
  @type: (() => Bool);
*)
q_step == facade_small_facade_step

================================================================================
