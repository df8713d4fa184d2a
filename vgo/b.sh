#!/bin/sh
cd /verif/vgo && GOTOOLCHAIN=local GOWORK=off GOFLAGS=-mod=vendor GOPROXY=off /opt/veriftools/go1.27.3/bin/go build -o /tmp/vgo . || exit 1
