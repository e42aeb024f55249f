------------------------------ MODULE bitset_tiny ------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

VARIABLE
  (*
    @type: (Int -> Set(Int));
  *)
  bitset_tiny_bitset_heap

(*
  @type: (() => Int);
*)
bitset_tiny_bitset_SLOTS == 2

VARIABLE
  (*
    @type: (Int -> Int);
  *)
  bitset_tiny_bitset_slot

VARIABLE
  (*
    @type: { a: Int, b: Int, count: Int, e: Int, eq: Bool, less: Bool, member: Bool, op: Str, sub: Bool, value: Int };
  *)
  bitset_tiny_bitset_obs

(*
  @type: (() => { a: Int, b: Int, count: Int, e: Int, eq: Bool, less: Bool, member: Bool, op: Str, sub: Bool, value: Int });
*)
bitset_tiny_bitset_NOOBS ==
  [op |-> "none",
    a |-> 0,
    b |-> 0,
    e |-> 0,
    eq |-> FALSE,
    sub |-> FALSE,
    less |-> FALSE,
    count |-> 0,
    value |-> 0,
    member |-> FALSE]

(*
  @type: (() => Int);
*)
bitset_tiny_bitset_MAXEL == 1

(*
  @type: (((Int -> Set(Int)), (Int -> Int)) => (Int -> Set(Int)));
*)
bitset_tiny_bitset_reachable(bitset_tiny_bitset_h_168, bitset_tiny_bitset_s_168) ==
  [
    bitset_tiny_bitset_o_166 \in
      {
        bitset_tiny_bitset_s_168[bitset_tiny_bitset_i_160]:
          bitset_tiny_bitset_i_160 \in DOMAIN bitset_tiny_bitset_s_168
      } |->
      bitset_tiny_bitset_h_168[bitset_tiny_bitset_o_166]
  ]

(*
  @type: ((Set(Int)) => Int);
*)
bitset_tiny_bitset_number(bitset_tiny_bitset_s_67) ==
  LET (*
    @type: ((Int, Int) => Int);
  *)
  __QUINT_LAMBDA0(bitset_tiny_bitset_acc_65, bitset_tiny_bitset_i_65) ==
    bitset_tiny_bitset_acc_65 + 2 ^ bitset_tiny_bitset_i_65
  IN
  ApaFoldSet(__QUINT_LAMBDA0, 0, bitset_tiny_bitset_s_67)

(*
  @type: ((Int) => Int);
*)
bitset_tiny_bitset_place(bitset_tiny_bitset_e_89) ==
  8
    * (((bitset_tiny_bitset_e_89 % 64) \div 8) * 4
      + bitset_tiny_bitset_e_89 \div 64)
    + (bitset_tiny_bitset_e_89 % 8)

(*
  @type: ((Int, Int) => Int);
*)
bitset_tiny_bitset_imin(bitset_tiny_bitset_a_1176, bitset_tiny_bitset_b_1176) ==
  IF bitset_tiny_bitset_a_1176 < bitset_tiny_bitset_b_1176
  THEN bitset_tiny_bitset_a_1176
  ELSE bitset_tiny_bitset_b_1176

(*
  @type: ((Set(Int), Set(Int)) => Set(Int));
*)
bitset_tiny_bitset_xor(bitset_tiny_bitset_s_376, bitset_tiny_bitset_t_376) ==
  (bitset_tiny_bitset_s_376 \union bitset_tiny_bitset_t_376)
    \ (bitset_tiny_bitset_s_376 \intersect bitset_tiny_bitset_t_376)

(*
  @type: ((Set(Int), Int) => Set(Int));
*)
bitset_tiny_bitset_toggle(bitset_tiny_bitset_s_359, bitset_tiny_bitset_e_359) ==
  IF bitset_tiny_bitset_e_359 \in bitset_tiny_bitset_s_359
  THEN bitset_tiny_bitset_s_359 \ {bitset_tiny_bitset_e_359}
  ELSE bitset_tiny_bitset_s_359 \union {bitset_tiny_bitset_e_359}

(*
  @type: (() => Set(Int));
*)
bitset_tiny_bitset_VARS == 0 .. bitset_tiny_bitset_SLOTS - 1

(*
  @type: (() => Set(Int));
*)
bitset_tiny_bitset_ELEMS ==
  { bitset_tiny_bitset_e_175 \in 0 .. bitset_tiny_bitset_MAXEL: TRUE }

(*
  @type: ((Set(Int)) => Int);
*)
bitset_tiny_bitset_code(bitset_tiny_bitset_s_107) ==
  LET (*
    @type: ((Int, Int) => Int);
  *)
  __QUINT_LAMBDA1(bitset_tiny_bitset_acc_105, bitset_tiny_bitset_i_105) ==
    bitset_tiny_bitset_acc_105
      + 2 ^ bitset_tiny_bitset_place(bitset_tiny_bitset_i_105)
  IN
  ApaFoldSet(__QUINT_LAMBDA1, 0, bitset_tiny_bitset_s_107)

(*
  @type: (() => Int);
*)
bitset_tiny_bitset_fresh ==
  LET (*
    @type: ((Int, Int) => Int);
  *)
  __QUINT_LAMBDA2(bitset_tiny_bitset_acc_138, bitset_tiny_bitset_o_138) ==
    bitset_tiny_bitset_imin(bitset_tiny_bitset_acc_138, bitset_tiny_bitset_o_138)
  IN
  ApaFoldSet(__QUINT_LAMBDA2, (bitset_tiny_bitset_SLOTS), {
    bitset_tiny_bitset_o_130 \in 0 .. bitset_tiny_bitset_SLOTS:
      ~(bitset_tiny_bitset_o_130 \in DOMAIN bitset_tiny_bitset_heap)
  })

(*
  @type: ((Int) => Set(Int));
*)
bitset_tiny_bitset_obj(bitset_tiny_bitset_i_118) ==
  bitset_tiny_bitset_heap[bitset_tiny_bitset_slot[bitset_tiny_bitset_i_118]]

(*
  @type: (() => Bool);
*)
bitset_tiny_bitset_init ==
  bitset_tiny_bitset_heap
      = [ bitset_tiny_bitset_i_324 \in bitset_tiny_bitset_VARS |-> {} ]
    /\ bitset_tiny_bitset_slot
      = [
        bitset_tiny_bitset_i_331 \in bitset_tiny_bitset_VARS |->
          bitset_tiny_bitset_i_331
      ]
    /\ bitset_tiny_bitset_obs = bitset_tiny_bitset_NOOBS

(*
  @type: ((Set(Int), Set(Int), Int, Int, Int) => { a: Int, b: Int, count: Int, e: Int, eq: Bool, less: Bool, member: Bool, op: Str, sub: Bool, value: Int });
*)
bitset_tiny_bitset_look(bitset_tiny_bitset_x_230, bitset_tiny_bitset_y_230, bitset_tiny_bitset_a_230,
bitset_tiny_bitset_b_230, bitset_tiny_bitset_e_230) ==
  [op |-> "look",
    a |-> bitset_tiny_bitset_a_230,
    b |-> bitset_tiny_bitset_b_230,
    e |-> bitset_tiny_bitset_e_230,
    eq |-> bitset_tiny_bitset_x_230 = bitset_tiny_bitset_y_230,
    sub |-> bitset_tiny_bitset_x_230 \subseteq bitset_tiny_bitset_y_230,
    less |->
      bitset_tiny_bitset_number(bitset_tiny_bitset_x_230)
        < bitset_tiny_bitset_number(bitset_tiny_bitset_y_230),
    count |-> Cardinality(bitset_tiny_bitset_x_230),
    value |-> bitset_tiny_bitset_code(bitset_tiny_bitset_x_230),
    member |-> bitset_tiny_bitset_e_230 \in bitset_tiny_bitset_x_230]

(*
  @type: ((Int, Int) => Set(Int));
*)
bitset_tiny_bitset_between(bitset_tiny_bitset_x_408, bitset_tiny_bitset_y_408) ==
  {
    bitset_tiny_bitset_e_406 \in bitset_tiny_bitset_ELEMS:
      bitset_tiny_bitset_e_406 >= bitset_tiny_bitset_x_408
        /\ bitset_tiny_bitset_e_406 <= bitset_tiny_bitset_y_408
  }

(*
  @type: (() => Bool);
*)
bitset_tiny_bitset_codeOk ==
  \A bitset_tiny_bitset_i_731 \in bitset_tiny_bitset_VARS:
    \A bitset_tiny_bitset_j_729 \in bitset_tiny_bitset_VARS:
      (bitset_tiny_bitset_obj(bitset_tiny_bitset_i_731)
        = bitset_tiny_bitset_obj(bitset_tiny_bitset_j_729))
        = (bitset_tiny_bitset_code((bitset_tiny_bitset_obj(bitset_tiny_bitset_i_731)))
          = bitset_tiny_bitset_code((bitset_tiny_bitset_obj(bitset_tiny_bitset_j_729))))

(*
  @type: (() => Bool);
*)
bitset_tiny_bitset_refsOk ==
  \A bitset_tiny_bitset_i_621 \in bitset_tiny_bitset_VARS:
    bitset_tiny_bitset_slot[bitset_tiny_bitset_i_621]
      \in DOMAIN bitset_tiny_bitset_heap

(*
  @type: (() => Bool);
*)
bitset_tiny_bitset_contentsOk ==
  \A bitset_tiny_bitset_o_632 \in DOMAIN bitset_tiny_bitset_heap:
    bitset_tiny_bitset_heap[bitset_tiny_bitset_o_632]
      \subseteq bitset_tiny_bitset_ELEMS

(*
  @type: (() => Bool);
*)
bitset_tiny_bitset_orderOk ==
  \A bitset_tiny_bitset_i_682 \in bitset_tiny_bitset_VARS:
    \A bitset_tiny_bitset_j_680 \in bitset_tiny_bitset_VARS:
      (bitset_tiny_bitset_obj(bitset_tiny_bitset_i_682)
          = bitset_tiny_bitset_obj(bitset_tiny_bitset_j_680))
          = (bitset_tiny_bitset_number((bitset_tiny_bitset_obj(bitset_tiny_bitset_i_682)))
            = bitset_tiny_bitset_number((bitset_tiny_bitset_obj(bitset_tiny_bitset_j_680))))
        /\ (bitset_tiny_bitset_obj(bitset_tiny_bitset_i_682)
          \subseteq bitset_tiny_bitset_obj(bitset_tiny_bitset_j_680)
          => bitset_tiny_bitset_number((bitset_tiny_bitset_obj(bitset_tiny_bitset_i_682)))
            <= bitset_tiny_bitset_number((bitset_tiny_bitset_obj(bitset_tiny_bitset_j_680))))
        /\ (bitset_tiny_bitset_obj(bitset_tiny_bitset_i_682)
          \subseteq bitset_tiny_bitset_obj(bitset_tiny_bitset_j_680))
          = (bitset_tiny_bitset_obj(bitset_tiny_bitset_i_682)
            \intersect bitset_tiny_bitset_obj(bitset_tiny_bitset_j_680)
            = bitset_tiny_bitset_obj(bitset_tiny_bitset_i_682))

(*
  @type: (() => Bool);
*)
q_init == bitset_tiny_bitset_init

(*
  @type: (((Int -> Set(Int)), (Int -> Int)) => Bool);
*)
bitset_tiny_bitset_move(bitset_tiny_bitset_h_279, bitset_tiny_bitset_s_279) ==
  \E bitset_tiny_bitset_a \in bitset_tiny_bitset_VARS:
    \E bitset_tiny_bitset_b \in bitset_tiny_bitset_VARS:
      \E bitset_tiny_bitset_e \in bitset_tiny_bitset_ELEMS:
        bitset_tiny_bitset_heap'
            := (bitset_tiny_bitset_reachable(bitset_tiny_bitset_h_279, bitset_tiny_bitset_s_279))
          /\ bitset_tiny_bitset_slot' := bitset_tiny_bitset_s_279
          /\ bitset_tiny_bitset_obs'
            := (bitset_tiny_bitset_look(bitset_tiny_bitset_h_279[
              bitset_tiny_bitset_s_279[bitset_tiny_bitset_a]
            ], bitset_tiny_bitset_h_279[
              bitset_tiny_bitset_s_279[bitset_tiny_bitset_b]
            ], bitset_tiny_bitset_a, bitset_tiny_bitset_b, bitset_tiny_bitset_e))

(*
  @type: (() => Bool);
*)
bitset_tiny_bitset_inv ==
  ((bitset_tiny_bitset_codeOk /\ bitset_tiny_bitset_refsOk)
      /\ bitset_tiny_bitset_contentsOk)
    /\ bitset_tiny_bitset_orderOk

(*
  @type: ((Int, Set(Int)) => Bool);
*)
bitset_tiny_bitset_make(bitset_tiny_bitset_i_296, bitset_tiny_bitset_s_296) ==
  LET (*
    @type: (() => (Int -> Set(Int)));
  *)
  __quint_var0 == bitset_tiny_bitset_heap
  IN
  bitset_tiny_bitset_move((LET (*
    @type: (() => Set(Int));
  *)
  __quint_var1 == DOMAIN __quint_var0
  IN
  [
    __quint_var2 \in {(bitset_tiny_bitset_fresh)} \union __quint_var1 |->
      IF __quint_var2 = bitset_tiny_bitset_fresh
      THEN bitset_tiny_bitset_s_296
      ELSE (__quint_var0)[__quint_var2]
  ]), [
    bitset_tiny_bitset_slot EXCEPT
      ![bitset_tiny_bitset_i_296] = bitset_tiny_bitset_fresh
  ])

(*
  @type: ((Int, Int, Set(Int)) => Bool);
*)
bitset_tiny_bitset_mutate(bitset_tiny_bitset_i_319, bitset_tiny_bitset_j_319, bitset_tiny_bitset_s_319) ==
  bitset_tiny_bitset_move([
    bitset_tiny_bitset_heap EXCEPT
      ![bitset_tiny_bitset_slot[bitset_tiny_bitset_i_319]] =
        bitset_tiny_bitset_s_319
  ], [
    bitset_tiny_bitset_slot EXCEPT
      ![bitset_tiny_bitset_j_319] =
        bitset_tiny_bitset_slot[bitset_tiny_bitset_i_319]
  ])

(*
  @type: (() => Bool);
*)
q_inv == bitset_tiny_bitset_inv

(*
  @type: (() => Bool);
*)
bitset_tiny_bitset_New ==
  \E bitset_tiny_bitset_i \in bitset_tiny_bitset_VARS:
    \E bitset_tiny_bitset_s \in SUBSET bitset_tiny_bitset_ELEMS:
      bitset_tiny_bitset_make(bitset_tiny_bitset_i, bitset_tiny_bitset_s)

(*
  @type: (() => Bool);
*)
bitset_tiny_bitset_NewRange ==
  \E bitset_tiny_bitset_i \in bitset_tiny_bitset_VARS:
    \E bitset_tiny_bitset_x \in bitset_tiny_bitset_ELEMS:
      \E bitset_tiny_bitset_y \in bitset_tiny_bitset_ELEMS:
        bitset_tiny_bitset_make(bitset_tiny_bitset_i, (bitset_tiny_bitset_between(bitset_tiny_bitset_x,
        bitset_tiny_bitset_y)))

(*
  @type: (() => Bool);
*)
bitset_tiny_bitset_NewNear ==
  \E bitset_tiny_bitset_i \in bitset_tiny_bitset_VARS:
    \E bitset_tiny_bitset_j \in bitset_tiny_bitset_VARS:
      \E bitset_tiny_bitset_x \in bitset_tiny_bitset_ELEMS:
        \E bitset_tiny_bitset_w \in 0 .. 3:
          bitset_tiny_bitset_make(bitset_tiny_bitset_j, (bitset_tiny_bitset_xor((bitset_tiny_bitset_obj(bitset_tiny_bitset_i)),
          (bitset_tiny_bitset_between(bitset_tiny_bitset_x, (bitset_tiny_bitset_imin((bitset_tiny_bitset_x
            + bitset_tiny_bitset_w), (bitset_tiny_bitset_MAXEL))))))))

(*
  @type: (() => Bool);
*)
bitset_tiny_bitset_SetEl ==
  \E bitset_tiny_bitset_i \in bitset_tiny_bitset_VARS:
    \E bitset_tiny_bitset_j \in bitset_tiny_bitset_VARS:
      \E bitset_tiny_bitset_x \in bitset_tiny_bitset_ELEMS:
        bitset_tiny_bitset_mutate(bitset_tiny_bitset_i, bitset_tiny_bitset_j, (bitset_tiny_bitset_obj(bitset_tiny_bitset_i)
          \union {bitset_tiny_bitset_x}))

(*
  @type: (() => Bool);
*)
bitset_tiny_bitset_ClearEl ==
  \E bitset_tiny_bitset_i \in bitset_tiny_bitset_VARS:
    \E bitset_tiny_bitset_j \in bitset_tiny_bitset_VARS:
      \E bitset_tiny_bitset_x \in bitset_tiny_bitset_ELEMS:
        bitset_tiny_bitset_mutate(bitset_tiny_bitset_i, bitset_tiny_bitset_j, (bitset_tiny_bitset_obj(bitset_tiny_bitset_i)
          \ {bitset_tiny_bitset_x}))

(*
  @type: (() => Bool);
*)
bitset_tiny_bitset_ToggleEl ==
  \E bitset_tiny_bitset_i \in bitset_tiny_bitset_VARS:
    \E bitset_tiny_bitset_j \in bitset_tiny_bitset_VARS:
      \E bitset_tiny_bitset_x \in bitset_tiny_bitset_ELEMS:
        bitset_tiny_bitset_mutate(bitset_tiny_bitset_i, bitset_tiny_bitset_j, (bitset_tiny_bitset_toggle((bitset_tiny_bitset_obj(bitset_tiny_bitset_i)),
        bitset_tiny_bitset_x)))

(*
  @type: (() => Bool);
*)
bitset_tiny_bitset_Clone ==
  \E bitset_tiny_bitset_i \in bitset_tiny_bitset_VARS:
    \E bitset_tiny_bitset_j \in bitset_tiny_bitset_VARS:
      bitset_tiny_bitset_make(bitset_tiny_bitset_j, (bitset_tiny_bitset_obj(bitset_tiny_bitset_i)))

(*
  @type: (() => Bool);
*)
bitset_tiny_bitset_Inter ==
  \E bitset_tiny_bitset_i \in bitset_tiny_bitset_VARS:
    \E bitset_tiny_bitset_j \in bitset_tiny_bitset_VARS:
      \E bitset_tiny_bitset_k \in bitset_tiny_bitset_VARS:
        bitset_tiny_bitset_make(bitset_tiny_bitset_k, (bitset_tiny_bitset_obj(bitset_tiny_bitset_i)
          \intersect bitset_tiny_bitset_obj(bitset_tiny_bitset_j)))

(*
  @type: (() => Bool);
*)
bitset_tiny_bitset_Union ==
  \E bitset_tiny_bitset_i \in bitset_tiny_bitset_VARS:
    \E bitset_tiny_bitset_j \in bitset_tiny_bitset_VARS:
      \E bitset_tiny_bitset_k \in bitset_tiny_bitset_VARS:
        bitset_tiny_bitset_make(bitset_tiny_bitset_k, (bitset_tiny_bitset_obj(bitset_tiny_bitset_i)
          \union bitset_tiny_bitset_obj(bitset_tiny_bitset_j)))

(*
  @type: (() => Bool);
*)
bitset_tiny_bitset_ViaBytes ==
  \E bitset_tiny_bitset_i \in bitset_tiny_bitset_VARS:
    \E bitset_tiny_bitset_j \in bitset_tiny_bitset_VARS:
      bitset_tiny_bitset_make(bitset_tiny_bitset_j, (bitset_tiny_bitset_obj(bitset_tiny_bitset_i)))

(*
  @type: (() => Bool);
*)
bitset_tiny_bitset_ViaHex ==
  \E bitset_tiny_bitset_i \in bitset_tiny_bitset_VARS:
    \E bitset_tiny_bitset_j \in bitset_tiny_bitset_VARS:
      bitset_tiny_bitset_make(bitset_tiny_bitset_j, (bitset_tiny_bitset_obj(bitset_tiny_bitset_i)))

(*
  @type: (() => Bool);
*)
bitset_tiny_bitset_step ==
  bitset_tiny_bitset_New
    \/ bitset_tiny_bitset_NewRange
    \/ bitset_tiny_bitset_NewNear
    \/ bitset_tiny_bitset_SetEl
    \/ bitset_tiny_bitset_ClearEl
    \/ bitset_tiny_bitset_ToggleEl
    \/ bitset_tiny_bitset_Clone
    \/ bitset_tiny_bitset_Inter
    \/ bitset_tiny_bitset_Union
    \/ bitset_tiny_bitset_ViaBytes
    \/ bitset_tiny_bitset_ViaHex

(*
  @type: (() => Bool);
*)
q_step == bitset_tiny_bitset_step

================================================================================
