#!/bin/sh
# tools/compile_tla.sh SPEC MAIN INVARIANT: compile a Quint module to spec/tla/MAIN.tla + .cfg for TLC
cd "$(dirname "$0")/../spec" || exit 2
quint compile "$1" --main "$2" --invariant "$3" --target tlaplus 2>/dev/null | sed -n '/^-* MODULE/,$p' > "tla/$2.tla"
printf 'INIT q_init\nNEXT q_step\nINVARIANT q_inv\nCHECK_DEADLOCK FALSE\n' > "tla/$2.cfg"
