# Go toolchain and build function for the checks (sourced).
for d in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do
	[ -x "$d/go" ] && PATH="$d:$PATH" && break
done
export PATH HOME="${HOME:-/root}"
export GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOFLAGS=-mod=mod CGO_ENABLED=0
export GOCACHE="${GOCACHE:-/root/.cache/go-build}" GOMODCACHE="${GOMODCACHE:-/root/go/pkg/mod}"
unset GOPATH GIT_DIR GIT_WORK_TREE

# vf_build DIR PROPERTY: build DIR/vf from /repo's working tree
vf_build() {
	local f
	for f in go.mod go.sum; do
		[ -e "/repo/$f" ] || cp "/opt/vp/mod/$f" "/repo/$f" || return 1
	done
	cp -a "$here/harness" "$1/harness" || return 1
	tags=no_license
	case "$2" in C15|C17|C26) tags=with_license ;; esac
	case "$2" in
	C29) (cd "$1/harness" && CGO_ENABLED=1 go build -race -tags "$tags" -o "$1/vf" ./cmd/vf) || return 1 ;;
	*) (cd "$1/harness" && go build -tags "$tags" -o "$1/vf" ./cmd/vf) || return 1 ;;
	esac
	case "$2" in C06) (cd "$1/harness" && go build -tags "$tags" -o "$1/cpw" ./cmd/cpw) || return 1 ;; esac
	case "$2" in
	C26)
		(cd "$1/harness" && go build -tags no_license -o "$1/ripsrc" github.com/pinpt/ripsrc) || return 1
		# starting this one takes seconds
		(cd "$1/harness" && go build -tags with_license -o "$1/ripsrc-licences" github.com/pinpt/ripsrc) || return 1
		;;
	esac
}
