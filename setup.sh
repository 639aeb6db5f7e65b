#!/bin/sh
# builds the verifier once (every check builds it again in its own copy)
cd "$(dirname "$0")/gover" && GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off go build -o /dev/null .
