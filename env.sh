# Environment of every command here: offline, module cache read-only, nothing written into /repo.
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export GOFLAGS="-mod=readonly -buildvcs=false" GOWORK=off GOPROXY=off GOTOOLCHAIN=local
