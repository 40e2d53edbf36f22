export HOME="${HOME:-/root}" PATH="/usr/local/go/bin:$PATH" GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off
