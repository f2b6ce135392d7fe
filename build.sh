#!/bin/bash
# builds the verifier (offline)
cd "$(dirname "$0")/gvc" && GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off go build -o ../bin/gvc .
