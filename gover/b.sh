#!/bin/sh
cd /verif/gover && GOFLAGS=-mod=mod GOPROXY=off go vet . && GOFLAGS=-mod=mod GOPROXY=off go build -o /tmp/gover .
