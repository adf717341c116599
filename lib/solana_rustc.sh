#!/bin/bash
# rustc wrapper: compiles the program crate with its on-chain configuration (target_os = "solana") for this host.
prev=
for a in "$@"; do
  if [ "$prev" = "--crate-name" ] && [ "$a" = "asset_agnostic_orderbook" ]; then
    exec "$@" --cfg 'target_os="solana"'
  fi
  prev="$a"
done
exec "$@"
