#!/bin/bash
# cargo calls: wrapper <rustc> <args...>.  The swig crates and pinocchio are compiled
# as they are for the chain (cfg target_os="solana"), everything else natively.
rc="$1"; shift
name=""; prev=""
for a in "$@"; do [ "$prev" = "--crate-name" ] && name="$a"; prev="$a"; done
case "$name" in
  swig|swig_state|swig_assertions|swig_compact_instructions|pinocchio|pinocchio_pubkey|pinocchio_system|pinocchio_token)
    exec "$rc" "$@" --cfg 'target_os="solana"' -A explicit_builtin_cfgs_in_flags -A warnings ;;
  *) exec "$rc" "$@" ;;
esac
