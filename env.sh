export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOPATH=/root/go GOTELEMETRY=off
B=${MC_BUILD:-/verif/.build}   # set only to try planted bugs
R=${MC_REPO:-/repo}
mkdir -p "$B"
export GOCACHE=/verif/.build/gocache
