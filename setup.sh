#!/bin/bash
# Builds the verification condition generator from the committed sources, offline.
set -e
cd "$(dirname "$0")"
mkdir -p bin evidence
GO=/opt/veriftools/go1.27.3/bin/go; [ -x "$GO" ] || GO=go
cd vgo && GOTOOLCHAIN=local GOWORK=off GOFLAGS=-mod=vendor GOPROXY=off "$GO" build -o ../bin/vgo .
