#!/bin/bash
# check.sh PROPERTY quick|thorough   decide one property on /repo's current working tree
# check.sh replay FILE               run the single case recorded in a replay file again
# check.sh setup                     build everything once
# Exit 0: held; 1: violation (with a VIOLATION line); 2: no answer (build failure, out of memory).
V=$(cd "$(dirname "$0")" && pwd)
. "$V/env.sh"
REPO=/repo

content() { # hash of everything the build depends on
    (cd "$REPO" && find src test-helpers Cargo.toml Cargo.lock tests-data tests-data-binary -type f ! -path '*/target/*' -print0 2>/dev/null |
        LC_ALL=C sort -z | xargs -0 sha256sum
     cd "$V/harness" && sha256sum Cargo.toml Cargo.lock src/*.rs) | sha256sum | cut -c1-64
}
build() { # build DIR PROFILE FEATURE-ARGS... ; cargo trusts time stamps, so force a rebuild when contents changed
    local dir=$V/target/$1 profile=$2; shift 2
    local stamp=$dir/$profile.content now; now=$(content)
    if [ "$(cat "$stamp" 2>/dev/null)" != "$now" ]; then
        [ -d "$dir/$profile/.fingerprint" ] && find "$dir/$profile/.fingerprint" -mindepth 1 -maxdepth 1 \
            \( -name 'fuel-merkle*' -o -name 'mc-*' \) -exec rm -r {} +
    fi
    mkdir -p "$dir"
    if ! cargo build --quiet --offline --locked --manifest-path "$V/harness/Cargo.toml" --profile "$profile" \
            --target-dir "$dir" "$@" >"$dir/$profile.log" 2>&1; then
        cat "$dir/$profile.log"
        echo "build failed: $dir $profile"
        exit 2
    fi
    echo "$now" >"$stamp"
}
b_std()      { build std checked; }
b_shipped()  { build std shipped; }
b_nostd()    { build nostd checked --no-default-features; build nostd shipped --no-default-features; }
b_helpers()  { build helpers checked --features helpers; }
T=$V/target
STD=$T/std/checked/mc SHIPPED=$T/std/shipped/mc HELPERS=$T/helpers/checked/mc

case "$1" in
setup)
    b_std; b_shipped; b_nostd; b_helpers
    exit 0;;
replay)
    get() { sed -n "s/^$1: //p" "$2" | head -1; }
    p=$(get property "$2")
    bin=$STD
    case "$p" in
        C23|C31) b_helpers; bin=$HELPERS;;
        C24) exec "$0" C24 "$(get tier "$2")";;
        *) if [ "$(get profile "$2")" = shipped ]; then b_shipped; bin=$SHIPPED; else b_std; fi;;
    esac
    exec "$bin" one "$p" "$(get tier "$2")" "$(get space "$2")" "$(get index "$2")";;
C[0-9][0-9]) ;;
*) sed -n '2,5p' "$0"; exit 2;;
esac

P=$1
TIER=${2:-${VERIF_TIER:-quick}}
BIN=$STD
unset MC_SHIPPED MC_BINS
case "$P" in
    C09|C10|C14|C15|C18|C19|C25) b_std; b_shipped; export MC_SHIPPED=$SHIPPED;;
    C23|C31) b_helpers; BIN=$HELPERS;;
    C24) b_std; b_shipped; b_nostd
         export MC_BINS="std+checks=$STD,std=$SHIPPED,no_std+checks=$T/nostd/checked/mc,no_std=$T/nostd/shipped/mc";;
    *) b_std;;
esac
EV=$V/evidence/$P.json
RP=$V/replays
export MC_KNOWN=$V/KNOWN_FINDINGS.txt
mkdir -p "$V/evidence" "$RP"
ulimit -v 24000000 2>/dev/null
ulimit -c 0
"$BIN" check "$P" "$TIER" "$EV" "$RP"
rc=$?
case $rc in
0|1) exit $rc;;
132|134|135|136|139) # the library crashed the process: abort (also on exhausted memory), bad access
    f=$RP/$P-crash-$rc.replay
    printf 'property: %s\ntier: %s\nprofile: checked\nspace: whole run\nindex: 0\ncase: whole run\nfound: the process was ended by signal %s\n' "$P" "$TIER" $((rc - 128)) >"$f"
    lvl=model_checking; case $P in C06|C07|C12|C13|C17|C28|C29) lvl=fault_enumeration;; esac
    printf '{"property":"%s","tier":"%s","seed":%s,"level":"%s","coverage":{"states":0,"transitions":0,"traces_validated_against_impl":0,"evaluations":0,"distinct_nontrivial":0,"rule":"the run was cut short by a crash","samples":["crash"]},"wall_s":0,"violations":1}\n' \
        "$P" "$TIER" "${VERIF_SEED:-1}" "$lvl" >"$EV"
    echo "the process exploring the library was ended by signal $((rc - 128))"
    echo "VIOLATION property=$P replay=$f"
    exit 1;;
*) echo "no answer: exit status $rc"; exit 2;;
esac
