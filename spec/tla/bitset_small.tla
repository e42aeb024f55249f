----------------------------- MODULE bitset_small -----------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

VARIABLE
  (*
    @type: (Int -> Set(Int));
  *)
  bitset_small_bitset_heap

(*
  @type: (() => Int);
*)
bitset_small_bitset_SLOTS == 2

VARIABLE
  (*
    @type: (Int -> Int);
  *)
  bitset_small_bitset_slot

VARIABLE
  (*
    @type: { a: Int, b: Int, count: Int, e: Int, eq: Bool, less: Bool, member: Bool, op: Str, sub: Bool, value: Int };
  *)
  bitset_small_bitset_obs

(*
  @type: (() => { a: Int, b: Int, count: Int, e: Int, eq: Bool, less: Bool, member: Bool, op: Str, sub: Bool, value: Int });
*)
bitset_small_bitset_NOOBS ==
  [op |-> "none",
    a |-> 0,
    b |-> 0,
    e |-> 0,
    eq |-> FALSE,
    sub |-> FALSE,
    less |-> FALSE,
    count |-> 0,
    value |-> 0,
    member |-> FALSE]

(*
  @type: (() => Int);
*)
bitset_small_bitset_MAXEL == 2

(*
  @type: (((Int -> Set(Int)), (Int -> Int)) => (Int -> Set(Int)));
*)
bitset_small_bitset_reachable(bitset_small_bitset_h_168, bitset_small_bitset_s_168) ==
  [
    bitset_small_bitset_o_166 \in
      {
        bitset_small_bitset_s_168[bitset_small_bitset_i_160]:
          bitset_small_bitset_i_160 \in DOMAIN bitset_small_bitset_s_168
      } |->
      bitset_small_bitset_h_168[bitset_small_bitset_o_166]
  ]

(*
  @type: ((Set(Int)) => Int);
*)
bitset_small_bitset_number(bitset_small_bitset_s_67) ==
  LET (*
    @type: ((Int, Int) => Int);
  *)
  __QUINT_LAMBDA0(bitset_small_bitset_acc_65, bitset_small_bitset_i_65) ==
    bitset_small_bitset_acc_65 + 2 ^ bitset_small_bitset_i_65
  IN
  ApaFoldSet(__QUINT_LAMBDA0, 0, bitset_small_bitset_s_67)

(*
  @type: ((Int) => Int);
*)
bitset_small_bitset_place(bitset_small_bitset_e_89) ==
  8
    * (((bitset_small_bitset_e_89 % 64) \div 8) * 4
      + bitset_small_bitset_e_89 \div 64)
    + (bitset_small_bitset_e_89 % 8)

(*
  @type: ((Int, Int) => Int);
*)
bitset_small_bitset_imin(bitset_small_bitset_a_1176, bitset_small_bitset_b_1176) ==
  IF bitset_small_bitset_a_1176 < bitset_small_bitset_b_1176
  THEN bitset_small_bitset_a_1176
  ELSE bitset_small_bitset_b_1176

(*
  @type: ((Set(Int), Set(Int)) => Set(Int));
*)
bitset_small_bitset_xor(bitset_small_bitset_s_376, bitset_small_bitset_t_376) ==
  (bitset_small_bitset_s_376 \union bitset_small_bitset_t_376)
    \ (bitset_small_bitset_s_376 \intersect bitset_small_bitset_t_376)

(*
  @type: ((Set(Int), Int) => Set(Int));
*)
bitset_small_bitset_toggle(bitset_small_bitset_s_359, bitset_small_bitset_e_359) ==
  IF bitset_small_bitset_e_359 \in bitset_small_bitset_s_359
  THEN bitset_small_bitset_s_359 \ {bitset_small_bitset_e_359}
  ELSE bitset_small_bitset_s_359 \union {bitset_small_bitset_e_359}

(*
  @type: (() => Set(Int));
*)
bitset_small_bitset_VARS == 0 .. bitset_small_bitset_SLOTS - 1

(*
  @type: (() => Set(Int));
*)
bitset_small_bitset_ELEMS ==
  { bitset_small_bitset_e_175 \in 0 .. bitset_small_bitset_MAXEL: TRUE }

(*
  @type: ((Set(Int)) => Int);
*)
bitset_small_bitset_code(bitset_small_bitset_s_107) ==
  LET (*
    @type: ((Int, Int) => Int);
  *)
  __QUINT_LAMBDA1(bitset_small_bitset_acc_105, bitset_small_bitset_i_105) ==
    bitset_small_bitset_acc_105
      + 2 ^ bitset_small_bitset_place(bitset_small_bitset_i_105)
  IN
  ApaFoldSet(__QUINT_LAMBDA1, 0, bitset_small_bitset_s_107)

(*
  @type: (() => Int);
*)
bitset_small_bitset_fresh ==
  LET (*
    @type: ((Int, Int) => Int);
  *)
  __QUINT_LAMBDA2(bitset_small_bitset_acc_138, bitset_small_bitset_o_138) ==
    bitset_small_bitset_imin(bitset_small_bitset_acc_138, bitset_small_bitset_o_138)
  IN
  ApaFoldSet(__QUINT_LAMBDA2, (bitset_small_bitset_SLOTS), {
    bitset_small_bitset_o_130 \in 0 .. bitset_small_bitset_SLOTS:
      ~(bitset_small_bitset_o_130 \in DOMAIN bitset_small_bitset_heap)
  })

(*
  @type: ((Int) => Set(Int));
*)
bitset_small_bitset_obj(bitset_small_bitset_i_118) ==
  bitset_small_bitset_heap[bitset_small_bitset_slot[bitset_small_bitset_i_118]]

(*
  @type: (() => Bool);
*)
bitset_small_bitset_init ==
  bitset_small_bitset_heap
      = [ bitset_small_bitset_i_324 \in bitset_small_bitset_VARS |-> {} ]
    /\ bitset_small_bitset_slot
      = [
        bitset_small_bitset_i_331 \in bitset_small_bitset_VARS |->
          bitset_small_bitset_i_331
      ]
    /\ bitset_small_bitset_obs = bitset_small_bitset_NOOBS

(*
  @type: ((Set(Int), Set(Int), Int, Int, Int) => { a: Int, b: Int, count: Int, e: Int, eq: Bool, less: Bool, member: Bool, op: Str, sub: Bool, value: Int });
*)
bitset_small_bitset_look(bitset_small_bitset_x_230, bitset_small_bitset_y_230, bitset_small_bitset_a_230,
bitset_small_bitset_b_230, bitset_small_bitset_e_230) ==
  [op |-> "look",
    a |-> bitset_small_bitset_a_230,
    b |-> bitset_small_bitset_b_230,
    e |-> bitset_small_bitset_e_230,
    eq |-> bitset_small_bitset_x_230 = bitset_small_bitset_y_230,
    sub |-> bitset_small_bitset_x_230 \subseteq bitset_small_bitset_y_230,
    less |->
      bitset_small_bitset_number(bitset_small_bitset_x_230)
        < bitset_small_bitset_number(bitset_small_bitset_y_230),
    count |-> Cardinality(bitset_small_bitset_x_230),
    value |-> bitset_small_bitset_code(bitset_small_bitset_x_230),
    member |-> bitset_small_bitset_e_230 \in bitset_small_bitset_x_230]

(*
  @type: ((Int, Int) => Set(Int));
*)
bitset_small_bitset_between(bitset_small_bitset_x_408, bitset_small_bitset_y_408) ==
  {
    bitset_small_bitset_e_406 \in bitset_small_bitset_ELEMS:
      bitset_small_bitset_e_406 >= bitset_small_bitset_x_408
        /\ bitset_small_bitset_e_406 <= bitset_small_bitset_y_408
  }

(*
  @type: (() => Bool);
*)
bitset_small_bitset_codeOk ==
  \A bitset_small_bitset_i_731 \in bitset_small_bitset_VARS:
    \A bitset_small_bitset_j_729 \in bitset_small_bitset_VARS:
      (bitset_small_bitset_obj(bitset_small_bitset_i_731)
        = bitset_small_bitset_obj(bitset_small_bitset_j_729))
        = (bitset_small_bitset_code((bitset_small_bitset_obj(bitset_small_bitset_i_731)))
          = bitset_small_bitset_code((bitset_small_bitset_obj(bitset_small_bitset_j_729))))

(*
  @type: (() => Bool);
*)
bitset_small_bitset_refsOk ==
  \A bitset_small_bitset_i_621 \in bitset_small_bitset_VARS:
    bitset_small_bitset_slot[bitset_small_bitset_i_621]
      \in DOMAIN bitset_small_bitset_heap

(*
  @type: (() => Bool);
*)
bitset_small_bitset_contentsOk ==
  \A bitset_small_bitset_o_632 \in DOMAIN bitset_small_bitset_heap:
    bitset_small_bitset_heap[bitset_small_bitset_o_632]
      \subseteq bitset_small_bitset_ELEMS

(*
  @type: (() => Bool);
*)
bitset_small_bitset_orderOk ==
  \A bitset_small_bitset_i_682 \in bitset_small_bitset_VARS:
    \A bitset_small_bitset_j_680 \in bitset_small_bitset_VARS:
      (bitset_small_bitset_obj(bitset_small_bitset_i_682)
          = bitset_small_bitset_obj(bitset_small_bitset_j_680))
          = (bitset_small_bitset_number((bitset_small_bitset_obj(bitset_small_bitset_i_682)))
            = bitset_small_bitset_number((bitset_small_bitset_obj(bitset_small_bitset_j_680))))
        /\ (bitset_small_bitset_obj(bitset_small_bitset_i_682)
          \subseteq bitset_small_bitset_obj(bitset_small_bitset_j_680)
          => bitset_small_bitset_number((bitset_small_bitset_obj(bitset_small_bitset_i_682)))
            <= bitset_small_bitset_number((bitset_small_bitset_obj(bitset_small_bitset_j_680))))
        /\ (bitset_small_bitset_obj(bitset_small_bitset_i_682)
          \subseteq bitset_small_bitset_obj(bitset_small_bitset_j_680))
          = (bitset_small_bitset_obj(bitset_small_bitset_i_682)
            \intersect bitset_small_bitset_obj(bitset_small_bitset_j_680)
            = bitset_small_bitset_obj(bitset_small_bitset_i_682))

(*
  @type: (() => Bool);
*)
q_init == bitset_small_bitset_init

(*
  @type: (((Int -> Set(Int)), (Int -> Int)) => Bool);
*)
bitset_small_bitset_move(bitset_small_bitset_h_279, bitset_small_bitset_s_279) ==
  \E bitset_small_bitset_a \in bitset_small_bitset_VARS:
    \E bitset_small_bitset_b \in bitset_small_bitset_VARS:
      \E bitset_small_bitset_e \in bitset_small_bitset_ELEMS:
        bitset_small_bitset_heap'
            := (bitset_small_bitset_reachable(bitset_small_bitset_h_279, bitset_small_bitset_s_279))
          /\ bitset_small_bitset_slot' := bitset_small_bitset_s_279
          /\ bitset_small_bitset_obs'
            := (bitset_small_bitset_look(bitset_small_bitset_h_279[
              bitset_small_bitset_s_279[bitset_small_bitset_a]
            ], bitset_small_bitset_h_279[
              bitset_small_bitset_s_279[bitset_small_bitset_b]
            ], bitset_small_bitset_a, bitset_small_bitset_b, bitset_small_bitset_e))

(*
  @type: (() => Bool);
*)
bitset_small_bitset_inv ==
  ((bitset_small_bitset_codeOk /\ bitset_small_bitset_refsOk)
      /\ bitset_small_bitset_contentsOk)
    /\ bitset_small_bitset_orderOk

(*
  @type: ((Int, Set(Int)) => Bool);
*)
bitset_small_bitset_make(bitset_small_bitset_i_296, bitset_small_bitset_s_296) ==
  LET (*
    @type: (() => (Int -> Set(Int)));
  *)
  __quint_var0 == bitset_small_bitset_heap
  IN
  bitset_small_bitset_move((LET (*
    @type: (() => Set(Int));
  *)
  __quint_var1 == DOMAIN __quint_var0
  IN
  [
    __quint_var2 \in {(bitset_small_bitset_fresh)} \union __quint_var1 |->
      IF __quint_var2 = bitset_small_bitset_fresh
      THEN bitset_small_bitset_s_296
      ELSE (__quint_var0)[__quint_var2]
  ]), [
    bitset_small_bitset_slot EXCEPT
      ![bitset_small_bitset_i_296] = bitset_small_bitset_fresh
  ])

(*
  @type: ((Int, Int, Set(Int)) => Bool);
*)
bitset_small_bitset_mutate(bitset_small_bitset_i_319, bitset_small_bitset_j_319,
bitset_small_bitset_s_319) ==
  bitset_small_bitset_move([
    bitset_small_bitset_heap EXCEPT
      ![bitset_small_bitset_slot[bitset_small_bitset_i_319]] =
        bitset_small_bitset_s_319
  ], [
    bitset_small_bitset_slot EXCEPT
      ![bitset_small_bitset_j_319] =
        bitset_small_bitset_slot[bitset_small_bitset_i_319]
  ])

(*
  @type: (() => Bool);
*)
q_inv == bitset_small_bitset_inv

(*
  @type: (() => Bool);
*)
bitset_small_bitset_New ==
  \E bitset_small_bitset_i \in bitset_small_bitset_VARS:
    \E bitset_small_bitset_s \in SUBSET bitset_small_bitset_ELEMS:
      bitset_small_bitset_make(bitset_small_bitset_i, bitset_small_bitset_s)

(*
  @type: (() => Bool);
*)
bitset_small_bitset_NewRange ==
  \E bitset_small_bitset_i \in bitset_small_bitset_VARS:
    \E bitset_small_bitset_x \in bitset_small_bitset_ELEMS:
      \E bitset_small_bitset_y \in bitset_small_bitset_ELEMS:
        bitset_small_bitset_make(bitset_small_bitset_i, (bitset_small_bitset_between(bitset_small_bitset_x,
        bitset_small_bitset_y)))

(*
  @type: (() => Bool);
*)
bitset_small_bitset_NewNear ==
  \E bitset_small_bitset_i \in bitset_small_bitset_VARS:
    \E bitset_small_bitset_j \in bitset_small_bitset_VARS:
      \E bitset_small_bitset_x \in bitset_small_bitset_ELEMS:
        \E bitset_small_bitset_w \in 0 .. 3:
          bitset_small_bitset_make(bitset_small_bitset_j, (bitset_small_bitset_xor((bitset_small_bitset_obj(bitset_small_bitset_i)),
          (bitset_small_bitset_between(bitset_small_bitset_x, (bitset_small_bitset_imin((bitset_small_bitset_x
            + bitset_small_bitset_w), (bitset_small_bitset_MAXEL))))))))

(*
  @type: (() => Bool);
*)
bitset_small_bitset_SetEl ==
  \E bitset_small_bitset_i \in bitset_small_bitset_VARS:
    \E bitset_small_bitset_j \in bitset_small_bitset_VARS:
      \E bitset_small_bitset_x \in bitset_small_bitset_ELEMS:
        bitset_small_bitset_mutate(bitset_small_bitset_i, bitset_small_bitset_j,
        (bitset_small_bitset_obj(bitset_small_bitset_i)
          \union {bitset_small_bitset_x}))

(*
  @type: (() => Bool);
*)
bitset_small_bitset_ClearEl ==
  \E bitset_small_bitset_i \in bitset_small_bitset_VARS:
    \E bitset_small_bitset_j \in bitset_small_bitset_VARS:
      \E bitset_small_bitset_x \in bitset_small_bitset_ELEMS:
        bitset_small_bitset_mutate(bitset_small_bitset_i, bitset_small_bitset_j,
        (bitset_small_bitset_obj(bitset_small_bitset_i)
          \ {bitset_small_bitset_x}))

(*
  @type: (() => Bool);
*)
bitset_small_bitset_ToggleEl ==
  \E bitset_small_bitset_i \in bitset_small_bitset_VARS:
    \E bitset_small_bitset_j \in bitset_small_bitset_VARS:
      \E bitset_small_bitset_x \in bitset_small_bitset_ELEMS:
        bitset_small_bitset_mutate(bitset_small_bitset_i, bitset_small_bitset_j,
        (bitset_small_bitset_toggle((bitset_small_bitset_obj(bitset_small_bitset_i)),
        bitset_small_bitset_x)))

(*
  @type: (() => Bool);
*)
bitset_small_bitset_Clone ==
  \E bitset_small_bitset_i \in bitset_small_bitset_VARS:
    \E bitset_small_bitset_j \in bitset_small_bitset_VARS:
      bitset_small_bitset_make(bitset_small_bitset_j, (bitset_small_bitset_obj(bitset_small_bitset_i)))

(*
  @type: (() => Bool);
*)
bitset_small_bitset_Inter ==
  \E bitset_small_bitset_i \in bitset_small_bitset_VARS:
    \E bitset_small_bitset_j \in bitset_small_bitset_VARS:
      \E bitset_small_bitset_k \in bitset_small_bitset_VARS:
        bitset_small_bitset_make(bitset_small_bitset_k, (bitset_small_bitset_obj(bitset_small_bitset_i)
          \intersect bitset_small_bitset_obj(bitset_small_bitset_j)))

(*
  @type: (() => Bool);
*)
bitset_small_bitset_Union ==
  \E bitset_small_bitset_i \in bitset_small_bitset_VARS:
    \E bitset_small_bitset_j \in bitset_small_bitset_VARS:
      \E bitset_small_bitset_k \in bitset_small_bitset_VARS:
        bitset_small_bitset_make(bitset_small_bitset_k, (bitset_small_bitset_obj(bitset_small_bitset_i)
          \union bitset_small_bitset_obj(bitset_small_bitset_j)))

(*
  @type: (() => Bool);
*)
bitset_small_bitset_ViaBytes ==
  \E bitset_small_bitset_i \in bitset_small_bitset_VARS:
    \E bitset_small_bitset_j \in bitset_small_bitset_VARS:
      bitset_small_bitset_make(bitset_small_bitset_j, (bitset_small_bitset_obj(bitset_small_bitset_i)))

(*
  @type: (() => Bool);
*)
bitset_small_bitset_ViaHex ==
  \E bitset_small_bitset_i \in bitset_small_bitset_VARS:
    \E bitset_small_bitset_j \in bitset_small_bitset_VARS:
      bitset_small_bitset_make(bitset_small_bitset_j, (bitset_small_bitset_obj(bitset_small_bitset_i)))

(*
  @type: (() => Bool);
*)
bitset_small_bitset_step ==
  bitset_small_bitset_New
    \/ bitset_small_bitset_NewRange
    \/ bitset_small_bitset_NewNear
    \/ bitset_small_bitset_SetEl
    \/ bitset_small_bitset_ClearEl
    \/ bitset_small_bitset_ToggleEl
    \/ bitset_small_bitset_Clone
    \/ bitset_small_bitset_Inter
    \/ bitset_small_bitset_Union
    \/ bitset_small_bitset_ViaBytes
    \/ bitset_small_bitset_ViaHex

(*
  @type: (() => Bool);
*)
q_step == bitset_small_bitset_step

================================================================================
