# Sourced: how the checks are built. Nothing is built in /repo itself.
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=1.70.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=1
export RUSTFLAGS="--cfg tp_verif" RUSTC_WRAPPER=
unset HEADERS_TO_STDOUT CARGO_TARGET_DIR
crate_of() {
    case $1 in
    C28) echo game ;;
    C29) echo ser ;;
    C2*) echo capi ;;
    *) echo core ;;
    esac
}
# the program that explores a property
bin_of() {
    case $1 in
    C24) echo mc-names ;;
    C28) echo mc-game ;;
    C29) echo mc-ser ;;
    C25 | C26 | C27) echo mc-cs ;;
    C2*) echo mc-capi ;;
    C07) echo mc-fields ;;
    C09 | C10 | C11 | C12) echo mc-engine ;;
    C13 | C14 | C15 | C16 | C19) echo mc-data ;;
    C17 | C18) echo mc-tables ;;
    *) echo mc-registry ;;
    esac
}
build_crate() { # crate [program]
    local log=/verif/target/$1.build.log
    mkdir -p /verif/target
    # cargo goes by mtimes, and sources laid down with older ones (a checkout, a copy) would be missed
    local sig old
    sig=$(cd /repo && find client crates demos -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.cs' -o -name '*.fbs' -o -name '*.tpl' \) -not -path '*/target/*' -print0 2>/dev/null | sort -z | xargs -0 sha256sum | sha256sum)
    old=$(cat "/verif/target/$1.sig" 2>/dev/null)
    if [ "$sig" != "$old" ] && [ -d "/verif/target/$1/debug/.fingerprint" ]; then
        find "/verif/target/$1/debug/.fingerprint" -maxdepth 1 -type d $(repo_crates) -exec rm -rf {} +
    fi
    # rustc 1.70 can fail on incremental rebuilds of safer-ffi's exports
    local inc=1; [ "$1" = capi ] && inc=0
    (cd "/verif/$1" && CARGO_INCREMENTAL=$inc CARGO_TARGET_DIR=/verif/target/$1 cargo build --offline --locked ${2:+--bin $2}) >"$log" 2>&1
    local rc=$?
    if [ $rc -ne 0 ]; then grep -E '^error' -A8 "$log" | head -60 >&2; return 1; fi
    echo "$sig" >"/verif/target/$1.sig"
}
# fingerprints of the crates that live in /repo
repo_crates() {
    local c first=1
    printf '( '
    for c in tp_client tp_contract_macro contract_macro arena better_borrow rsharp rsharp_macro rsharp-macro tp_contract_example unity_states circle_game mc-core mc-capi mc-game tp_serialize mc-ser; do
        [ $first = 1 ] || printf -- '-o '
        first=0
        printf -- '-name %s-* ' "$c"
    done
    printf ') '
}
# The programs that generate C#, built from a copy (they write next to their sources): /verif/target/gen/w00
build_gen() {
    local g=/verif/target/gen log=/verif/target/gen.build.log sig old d
    mkdir -p $g/w00/client $g/w00/crates/rsharp
    sig=$(cd /repo && find client/codegen_wrapped crates/rsharp/codegen Cargo.lock -type f -not -path '*/target/*' -print0 2>/dev/null | sort -z | xargs -0 sha256sum | sha256sum)
    old=$(cat $g/sig 2>/dev/null)
    if [ "$sig" != "$old" ]; then
        for d in client/codegen_wrapped crates/rsharp/codegen; do
            [ -n "$d" ] && rm -rf "/verif/target/gen/w00/$d"
            cp -r "/repo/$d" "$g/w00/$d" || return 1
        done
        printf '[workspace]\nresolver = "2"\nmembers = ["client/codegen_wrapped", "crates/rsharp/codegen"]\n\n[profile.dev]\ndebug = 0\n' >$g/w00/Cargo.toml
        cp /repo/Cargo.lock $g/w00/Cargo.lock || return 1
        (cd $g/w00 && RUSTFLAGS= CARGO_TARGET_DIR=$g/t cargo build --offline) >"$log" 2>&1
        if [ $? -ne 0 ]; then grep -E '^error' -A8 "$log" | cut -c1-300 | head -60 >&2; return 1; fi
        echo "$sig" >$g/sig
    fi
}
