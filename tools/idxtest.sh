#!/bin/bash
# runs the tests of the packages that cannot be built offline (internal/index, pkg/opencorpora) with stub modules
t=$(mktemp -d) && trap 'rm -rf "$t"' EXIT
printf 'module github.com/amarin/gomorphy\n\ngo 1.18\n\nrequire (\n\tgithub.com/amarin/binutils v0.6.0\n\tgithub.com/amarin/libxml v0.1.2\n\tgithub.com/amarin/logging v0.1.0\n\tgithub.com/stretchr/testify v1.8.4\n)\n\nreplace github.com/amarin/logging => /verif/stubs/logging\n\nreplace github.com/amarin/libxml => /verif/stubs/libxml\n' > $t/go.mod
cat /repo/go.mod | grep testify
cp /repo/go.sum $t/; cd ${1:-/repo} && sed -i "s/testify v1.8.4/$(grep -o 'testify v[0-9.]*' go.mod)/" $t/go.mod
GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local GOSUMDB=off go test -modfile=$t/go.mod -count=1 ./internal/... ./pkg/... ./cmd/... 2>&1 | tail -40
