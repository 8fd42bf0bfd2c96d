#!/bin/bash
# Builds every check once, so that the first run of each only rebuilds what depends on /repo.
cd "$(dirname "$0")/harness" || exit 1
mkdir -p target
. ../variants.sh
cargo build --release --offline --bins || exit 1
all_variants builds
for b in r1cs tree coin gens; do variant $b none || exit 1; done
