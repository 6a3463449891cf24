# Sourced by build.sh and check.sh: the Go toolchain the checks use.
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOENV=off
