---------------------------- MODULE registry_small ----------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

VARIABLE
  (*
    @type: (Int -> Int);
  *)
  registry_small_registry_reg

(*
  @type: (() => (Int -> Int));
*)
registry_small_registry_BUILTIN == SetAsFun({ <<0, 0>>, <<1, 1>>, <<2, 2>> })

VARIABLE
  (*
    @type: (Int -> Int);
  *)
  registry_small_registry_old

VARIABLE
  (*
    @type: Bool;
  *)
  registry_small_registry_ok

(*
  @type: (() => Set(Int));
*)
registry_small_registry_IDS == { 0, 1, 3, 127, 128, 129, 255 }

(*
  @type: (() => Set(Int));
*)
registry_small_registry_TYPES == { 0, 1, 10, 11, 20, 21, 30, 31 }

(*
  @type: (() => Int);
*)
registry_small_registry_ANON == 30

(*
  @type: (() => Int);
*)
registry_small_registry_NIL == 31

(*
  @type: ((Int) => Int);
*)
registry_small_registry_name(registry_small_registry_t_32) ==
  IF registry_small_registry_t_32 = 20
  THEN 10
  ELSE IF registry_small_registry_t_32 = 21
  THEN 1
  ELSE IF registry_small_registry_t_32 = 22
  THEN 0
  ELSE registry_small_registry_t_32

(*
  @type: (() => Bool);
*)
registry_small_registry_init ==
  registry_small_registry_reg = registry_small_registry_BUILTIN
    /\ registry_small_registry_old = registry_small_registry_BUILTIN
    /\ registry_small_registry_ok = TRUE

(*
  @type: (() => Set(Int));
*)
registry_small_registry_typesIn ==
  {
    registry_small_registry_reg[registry_small_registry_i_66]:
      registry_small_registry_i_66 \in DOMAIN registry_small_registry_reg
  }

(*
  @type: (() => Bool);
*)
registry_small_registry_Idle ==
  registry_small_registry_reg' := registry_small_registry_reg
    /\ registry_small_registry_old' := registry_small_registry_reg
    /\ registry_small_registry_ok' := registry_small_registry_ok

(*
  @type: (() => Bool);
*)
registry_small_registry_builtinsFixed ==
  \A registry_small_registry_i_253 \in DOMAIN registry_small_registry_BUILTIN:
    registry_small_registry_reg[registry_small_registry_i_253]
      = (registry_small_registry_BUILTIN)[registry_small_registry_i_253]

(*
  @type: (() => Bool);
*)
registry_small_registry_reservedFixed ==
  {
    registry_small_registry_i_262 \in DOMAIN registry_small_registry_reg:
      registry_small_registry_i_262 < 128
  }
    = DOMAIN registry_small_registry_BUILTIN

(*
  @type: (() => Bool);
*)
registry_small_registry_oneToOne ==
  \A registry_small_registry_i_287 \in DOMAIN registry_small_registry_reg:
    \A registry_small_registry_j_285 \in DOMAIN registry_small_registry_reg:
      registry_small_registry_reg[registry_small_registry_i_287]
        = registry_small_registry_reg[registry_small_registry_j_285]
        => registry_small_registry_i_287 = registry_small_registry_j_285

(*
  @type: (() => Bool);
*)
registry_small_registry_neverChanges ==
  \A registry_small_registry_i_305 \in DOMAIN registry_small_registry_old:
    registry_small_registry_i_305 \in DOMAIN registry_small_registry_reg
      /\ registry_small_registry_reg[registry_small_registry_i_305]
        = registry_small_registry_old[registry_small_registry_i_305]

(*
  @type: (() => Bool);
*)
registry_small_registry_failedIsNoop ==
  ~registry_small_registry_ok
    => registry_small_registry_reg = registry_small_registry_old

(*
  @type: (() => Bool);
*)
q_init == registry_small_registry_init

(*
  @type: ((Int, Int) => Bool);
*)
registry_small_registry_allowed(registry_small_registry_i_98, registry_small_registry_t_98) ==
  registry_small_registry_i_98 >= 128
    /\ registry_small_registry_t_98 /= registry_small_registry_ANON
    /\ registry_small_registry_t_98 /= registry_small_registry_NIL
    /\ (IF registry_small_registry_i_98 \in DOMAIN registry_small_registry_reg
    THEN registry_small_registry_reg[registry_small_registry_i_98]
      = registry_small_registry_t_98
    ELSE ~(registry_small_registry_t_98 \in registry_small_registry_typesIn))

(*
  @type: (() => Bool);
*)
registry_small_registry_onlyAlgorithms ==
  ~(registry_small_registry_ANON \in registry_small_registry_typesIn)
    /\ ~(registry_small_registry_NIL \in registry_small_registry_typesIn)

(*
  @type: ((Int, Int) => Bool);
*)
registry_small_registry_clash(registry_small_registry_i_122, registry_small_registry_t_122) ==
  registry_small_registry_allowed(registry_small_registry_i_122, registry_small_registry_t_122)
    /\ (\E registry_small_registry_u_119 \in registry_small_registry_typesIn:
      registry_small_registry_u_119 /= registry_small_registry_t_122
        /\ registry_small_registry_name(registry_small_registry_u_119)
          = registry_small_registry_name(registry_small_registry_t_122))

(*
  @type: (() => Bool);
*)
registry_small_registry_inv ==
  registry_small_registry_builtinsFixed
    /\ registry_small_registry_reservedFixed
    /\ registry_small_registry_oneToOne
    /\ registry_small_registry_neverChanges
    /\ registry_small_registry_failedIsNoop
    /\ registry_small_registry_onlyAlgorithms

(*
  @type: (() => Bool);
*)
registry_small_registry_Register ==
  \E registry_small_registry_i \in registry_small_registry_IDS:
    \E registry_small_registry_t \in registry_small_registry_TYPES:
      \E registry_small_registry_form \in { 0, 1, 2 }:
        ~(registry_small_registry_clash(registry_small_registry_i, registry_small_registry_t))
          /\ registry_small_registry_old' := registry_small_registry_reg
          /\ registry_small_registry_ok'
            := (registry_small_registry_allowed(registry_small_registry_i, registry_small_registry_t))
          /\ registry_small_registry_reg'
            := (IF registry_small_registry_allowed(registry_small_registry_i, registry_small_registry_t)
            THEN LET (*
              @type: (() => (Int -> Int));
            *)
            __quint_var0 == registry_small_registry_reg
            IN
            LET (*
              @type: (() => Set(Int));
            *)
            __quint_var1 == DOMAIN __quint_var0
            IN
            [
              __quint_var2 \in {registry_small_registry_i} \union __quint_var1 |->
                IF __quint_var2 = registry_small_registry_i
                THEN registry_small_registry_t
                ELSE (__quint_var0)[__quint_var2]
            ]
            ELSE registry_small_registry_reg)

(*
  @type: (() => Bool);
*)
registry_small_registry_RegisterNew ==
  \E registry_small_registry_i \in {
    registry_small_registry_x_180 \in registry_small_registry_IDS:
      registry_small_registry_x_180 >= 128
  }:
    \E registry_small_registry_t \in {
      registry_small_registry_x_193 \in registry_small_registry_TYPES:
        registry_small_registry_x_193 >= 3 /\ registry_small_registry_x_193 < 30
    }:
      \E registry_small_registry_form \in { 0, 1, 2 }:
        registry_small_registry_allowed(registry_small_registry_i, registry_small_registry_t)
          /\ ~(registry_small_registry_clash(registry_small_registry_i, registry_small_registry_t))
          /\ registry_small_registry_old' := registry_small_registry_reg
          /\ registry_small_registry_ok' := TRUE
          /\ registry_small_registry_reg'
            := (LET (*
              @type: (() => (Int -> Int));
            *)
            __quint_var3 == registry_small_registry_reg
            IN
            LET (*
              @type: (() => Set(Int));
            *)
            __quint_var4 == DOMAIN __quint_var3
            IN
            [
              __quint_var5 \in {registry_small_registry_i} \union __quint_var4 |->
                IF __quint_var5 = registry_small_registry_i
                THEN registry_small_registry_t
                ELSE (__quint_var3)[__quint_var5]
            ])

(*
  @type: (() => Bool);
*)
q_inv == registry_small_registry_inv

(*
  @type: (() => Bool);
*)
registry_small_registry_step ==
  registry_small_registry_Register
    \/ registry_small_registry_RegisterNew
    \/ registry_small_registry_Idle

(*
  @type: (() => Bool);
*)
q_step == registry_small_registry_step

================================================================================
