# Sourced by run.sh and setup.sh: builds a binary of the harness with other feature sets.
#   variant <bin> <name> -> target/release/<bin>-<name>
variant() {
  local feat flags="--cfg vh_hooks" dir=target
  case "$2" in
    default) feat="parallel asm" ;;
    none) feat="" ;;
    parallel) feat="parallel" ;;
    asm) feat="asm" ;;
    native) feat="parallel asm"; flags="$flags -C target-feature=+bmi2,+adx" ;;
  esac
  [ "$2" = default ] || dir="target/$2"
  RUSTFLAGS="$flags" cargo build --release --offline --quiet --bin "$1" --no-default-features --features "$feat" --target-dir "$dir" || return 1
  cp "$dir/release/$1" "target/release/.$1-$2.$$" && mv "target/release/.$1-$2.$$" "target/release/$1-$2"
}
# the feature sets this machine can run (the last one makes the assembly arithmetic effective)
variants="default none parallel asm"
if grep -qw adx /proc/cpuinfo && grep -qw bmi2 /proc/cpuinfo; then variants="$variants native"; fi
# all variants of one binary, side by side
all_variants() {
  local v pids="" ok=0
  for v in $variants; do variant "$1" "$v" >"target/build-$1-$v.log" 2>&1 & pids="$pids $!"; done
  for v in $pids; do wait "$v" || ok=1; done
  [ $ok = 0 ] || cat target/build-"$1"-*.log >&2
  return $ok
}
