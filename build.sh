# Sourced by check.sh and setup.sh.
. /opt/vp/env.sh
export VERIF_ROOT="$here" VERIF_BIN="$here/bin"
mkdir -p "$here/bin"
go_build() { (cd "$here/harness" && go build "$@") || { echo "the harness does not build"; exit 3; }; }
build() { go_build -o "$here/bin/$1" ./cmd/vh; }
# build_cli builds the shell.
build_cli() { (cd /repo/src && go build -o "$here/bin/helena" .) || { echo "the shell does not build"; exit 3; }; }
# build_sched builds the checks over an instrumented copy of the packages, and
# the free-running threads with the race detector.
build_sched() {
  go_build -o "$here/bin/instr" ./cmd/instr
  "$here/bin/instr" /repo/src "$here/bin/overlay" "$here/harness/cmd/instr/vsync.txt" || exit 3
  go_build -tags sched -overlay "$here/bin/overlay/overlay.json" -o "$here/bin/vh-sched" ./cmd/vh
  go_build -race -o "$here/bin/vh-race" ./cmd/race
}
