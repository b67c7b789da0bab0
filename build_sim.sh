#!/bin/bash
# Builds the simulators, with the current sources of /repo: build_sim.sh [--bin NAME]... [PROFILE]...
# All of them, in all profiles, without arguments.
cd "$(dirname "$0")/sim" || exit 1
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/target"
export RUSTFLAGS="-A warnings -A dangerous_implicit_autorefs -Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer"
bins=()
while [ "$1" = --bin ]; do bins+=(--bin "$2"); shift 2; done
jobs=()
for p in ${*:-release checked weak}; do
  # The profile `weak` is for those with atomics only.
  more=()
  [ "$p" = weak ] && more=(--features weak) && [ ${#bins[@]} = 0 ] && more+=(--bin bump)
  cargo +nightly build --quiet --offline --target x86_64-unknown-linux-gnu "${bins[@]}" "${more[@]}" --profile "$p" &
  jobs+=($!)
done
code=0
for j in "${jobs[@]}"; do wait "$j" || code=1; done
exit $code
