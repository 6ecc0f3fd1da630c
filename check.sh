#!/bin/bash
# check.sh ID [--case N]: build the harness against /repo's working tree and decide property ID.
# Exit 0: held on everything explored. Exit 1: VIOLATION line printed. Anything else: no verdict.
set -u
cd "$(dirname "$0")" || exit 3
export VERIF_DIR="$PWD"
command -v cargo >/dev/null || export PATH="/root/.cargo/bin:$PATH"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR
ID="${1:?usage: check.sh ID [--case N]}"
T="$VERIF_DIR/target"
mkdir -p "$T" evidence
[ "$ID" = --build ] || rm -f "evidence/$ID.json"
TC=+stable-x86_64-unknown-linux-gnu

build() { # log, command...
	local log="$1"
	shift
	"$@" >"$log" 2>&1 || {
		grep -E '^error' -A12 "$log" | head -60 >&2
		echo "BUILD FAILED: $*" >&2
		exit 3
	}
}

build "$T/harness.log" cargo $TC build --offline --locked --manifest-path harness/Cargo.toml --target-dir "$T/harness"
case "$ID" in
--build | C22 | C23 | C24 | C25 | C26 | C28 | C29)
	build "$T/repo.log" env CARGO_PROFILE_DEV_OPT_LEVEL=2 CARGO_PROFILE_DEV_DEBUG=0 CARGO_PROFILE_DEV_CODEGEN_UNITS=1 cargo $TC build --offline --locked --manifest-path /repo/Cargo.toml --target-dir "$T/repo" -p nora_scp -p nora_sshd
	build "$T/shim.log" cc -O1 -shared -fPIC -o "$T/shim.so" harness/shim.c -ldl
	;;
esac
case "$ID" in
--build | C27)
	build "$T/asan.log" env RUSTFLAGS=-Zsanitizer=address cargo +nightly build --offline --locked --manifest-path memsafe/Cargo.toml --target-dir "$T/asan" --target x86_64-unknown-linux-gnu
	build "$T/miri.log" env RUSTFLAGS="--cfg chacha20_force_soft" cargo +nightly miri run --offline --locked --manifest-path memsafe/Cargo.toml --target-dir "$T/miri" --
	;;
esac
[ "$ID" = --build ] && exit 0
exec "$T/harness/debug/vh" "$@"
