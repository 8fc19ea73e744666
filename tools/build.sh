# sourced by check.sh: everything is rebuilt from /repo's working tree

# A target directory is only reused while the sources it was built from are
# byte for byte the same (cargo alone goes by modification time).
fresh() { # fresh DIR
  local now
  now=$( (cd /repo && find src examples build.rs Cargo.toml Cargo.lock -type f 2>/dev/null | LC_ALL=C sort | xargs -d '\n' sha256sum) | sha256sum)
  if [ -d "$1" ] && [ "$(cat "$1/.sources" 2>/dev/null)" != "$now" ]; then
    rm -rf "/verif/target/${1##/verif/target/}"
  fi
  mkdir -p "$1"
  printf '%s\n' "$now" > "$1/.sources"
}

run_build() { # run_build LOG CMD...
  local log=/verif/work/$1.build.log
  shift
  if ! "$@" > "$log" 2>&1; then
    echo "BUILD-ERROR (no verdict):" >&2
    tail -n 40 "$log" >&2
    return 1
  fi
}

build_mc() {
  fresh /verif/target/mc
  run_build mc cargo build --release --offline --bin mc --manifest-path /verif/mc/Cargo.toml --target-dir /verif/target/mc
}

# The library builds, but a program that only uses it as documented does not:
# then that use is what is broken.
unusable() { # unusable ID LOG TEXT
  mkdir -p /verif/replays
  { echo "property=$1"; echo "family=build"; echo "chunk=0"; cat "/verif/work/$2.build.log"; } > "/verif/replays/$1-build.txt"
  python3 /verif/tools/build_failed.py "$1" "$3, see replays/$1-build.txt"
  echo "$3"
  echo "VIOLATION property=$1 replay=/verif/replays/$1-build.txt"
  exit 1
}

build_mac() {
  run_build mac cargo build --release --offline --bin mac --manifest-path /verif/mc/Cargo.toml --target-dir /verif/target/mc && return 0
  grep -q -- '--> src/mac' /verif/work/mac.build.log && unusable C18 mac "a documented use of the card macros does not compile"
  return 1
}

build_mt() {
  fresh /verif/target/mt
  run_build rt gcc -O2 -c /verif/mt/src/rt.c -o /verif/target/mt/rt.o || return 1
  run_build mt env RUSTUP_TOOLCHAIN=nightly \
    RUSTFLAGS="-Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer -Cllvm-args=-tsan-instrument-memory-accesses=0 -Cllvm-args=-tsan-instrument-func-entry-exit=0 -Clink-arg=/verif/target/mt/rt.o -Clink-arg=-Wl,--export-dynamic-symbol=getrandom" \
    cargo build --release --offline --target x86_64-unknown-linux-gnu --manifest-path /verif/mt/Cargo.toml --target-dir /verif/target/mt && return 0
  grep -q 'cannot be .* between threads safely' /verif/work/mt.build.log && unusable C06 mt "an evaluator can no longer be shared between threads"
  return 1
}

# The table data can no longer be read from the crate: go on with a copy of it.
no_export() { grep -q -- '--> build.rs' "/verif/work/$1.build.log" || grep -q -- '--> .*/st/build.rs' "/verif/work/$1.build.log"; }

# /repo's sources with the static_lookup feature and generated tables
build_st() {
  fresh /verif/target/st
  run_build st cargo build --release --offline --manifest-path /verif/st/Cargo.toml --target-dir /verif/target/st && return 0
  if no_export st; then
    run_build st cargo build --release --offline --no-default-features --features static_lookup,rand --manifest-path /verif/st/Cargo.toml --target-dir /verif/target/st && return 0
  fi
  grep -q -- '--> /repo/src/' /verif/work/st.build.log && ! grep -q -- '--> .*codegen.rs' /verif/work/st.build.log \
    && unusable C20 st "the crate does not compile with the static_lookup feature"
  return 1
}

build_us() {
  fresh /verif/target/us
  run_build us cargo build --release --offline --manifest-path /verif/us/Cargo.toml --target-dir /verif/target/us --bin us \
    && run_build lean cargo build --profile lean --offline --manifest-path /verif/us/Cargo.toml --target-dir /verif/target/us --bin work
}

# the same programs over the crate built in different ways, side by side
mode_build() { # mode_build NAME MANIFEST ARGS...
  local name=$1 man=$2
  shift 2
  fresh "/verif/target/$name"
  run_build "$name" cargo build --offline --manifest-path "$man" --target-dir "/verif/target/$name" "$@"
}

build_modes() {
  local m=/verif/mc/Cargo.toml pids=() names=() i ok=0
  build_mc && build_mac || return 1
  mode_build checked $m --profile checked --bin mc --bin mac & names+=(checked) pids+=($!)
  mode_build dev $m --profile dev --bin mc --bin mac & names+=(dev) pids+=($!)
  mode_build plain $m --release --no-default-features --bin mc & names+=(plain) pids+=($!)
  mode_build small $m --profile small --bin mc & names+=(small) pids+=($!)
  { mode_build mcs /verif/mcs/Cargo.toml --release --bin mc \
    || { no_export mcs && mode_build mcs /verif/mcs/Cargo.toml --release --bin mc --no-default-features --features rand; }; } & names+=(mcs) pids+=($!)
  if [ "$VERIF_TIER" = thorough ]; then
    for i in opt1 opt2 opts; do
      mode_build $i $m --profile $i --bin mc & names+=($i) pids+=($!)
    done
  fi
  for i in "${!pids[@]}"; do
    wait "${pids[$i]}" && continue
    ok=1
    grep -q -- '--> /repo/src/' "/verif/work/${names[$i]}.build.log" && ! grep -q -- '--> .*codegen.rs' "/verif/work/${names[$i]}.build.log" \
      && unusable C19 "${names[$i]}" "the crate does not compile in build ${names[$i]}"
  done
  return $ok
}

modes() { # modes ARGS...
  local t=/verif/target more=()
  [ "$VERIF_TIER" = thorough ] && more=(--mode opt1=$t/opt1/opt1 --mode opt2=$t/opt2/opt2 --mode opts=$t/opts/opts)
  exec $t/mc/release/mc modes C19 --mode release=$t/mc/release --mode checked=$t/checked/checked \
    --mode plain=$t/plain/release --mode small=$t/small/small --mode static=$t/mcs/release --slow dev=$t/dev/debug "${more[@]}" "$@"
}

# the example programs as libraries
build_ex() {
  local f
  fresh /verif/target/ex
  mkdir -p /verif/work/ex
  rm -rf /verif/work/ex/new
  cp -r /repo/examples /verif/work/ex/new || return 1
  for f in jacks-or-better poker-repl; do
    [ -f /verif/work/ex/new/$f.rs ] || { echo "BUILD-ERROR (no verdict): /repo/examples/$f.rs is missing" >&2; return 1; }
    printf '\n#[allow(missing_docs)]\npub fn verif_entry() -> bool {\n    let done = ::std::process::Termination::report(main());\n    format!("{done:?}") == format!("{:?}", ::std::process::ExitCode::SUCCESS)\n}\n' >> /verif/work/ex/new/$f.rs
  done
  # only what differs is replaced, so that cargo sees what is new
  (cd /verif/work/ex/new && find . -type f) | while read -r f; do
    cmp -s "/verif/work/ex/new/$f" "/verif/work/ex/$f" && continue
    mkdir -p "$(dirname "/verif/work/ex/$f")"
    cp "/verif/work/ex/new/$f" "/verif/work/ex/$f"
  done
  rm -rf /verif/work/ex/new
  run_build ex cargo build --release --offline --manifest-path /verif/ex/Cargo.toml --target-dir /verif/target/ex
}
