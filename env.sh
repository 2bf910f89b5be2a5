# Offline Go environment for building and running the analyser.
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
command -v go >/dev/null 2>&1 || export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOSUMDB=off CGO_ENABLED=0
