# environment of the Go toolchain: the newest one installed, offline
for d in /opt/veriftools/go1.27.3 /opt/veriftools/go1.27* /opt/veriftools/go1.26*; do
	[ -x "$d/bin/go" ] && { export GOROOT="$d" PATH="$d/bin:$PATH"; break; }
done
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOENV=off GOFLAGS="-mod=readonly -buildvcs=false" CGO_ENABLED=0
