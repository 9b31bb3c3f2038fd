#!/bin/bash
# Regenerates the pass-through halves of the shims (committed; only needed after a Go upgrade).
set -e
cd "$(dirname "$0")/.."
. /opt/vp/env.sh
g() { go run ./cmd/shimgen "$@"; }
g -real os -dir shim/os -funcs IsExist,IsNotExist,IsPermission,IsTimeout,IsPathSeparator,Expand,NewSyscallError \
  -deny Stdin,Root,Process,ProcAttr,ProcessState,Signal,Interrupt,Kill
g -real syscall -dir shim/syscall -funcs "NsecToTimespec,NsecToTimeval,TimespecToNsec,TimevalToNsec,BytePtrFromString,ByteSliceFromString"
g -real time -dir shim/time -funcs "*"
g -real math/rand -dir shim/rand -funcs New,NewSource,NewZipf
g -real math/rand/v2 -dir shim/randv2 -funcs New,NewPCG,NewChaCha8,NewZipf
g -real path/filepath -dir shim/filepath -funcs "*"
g -real context -dir shim/context -funcs "*"
export GOFLAGS="-mod=mod -modfile=$PWD/../.build/go.mod"
g -real github.com/spf13/viper -dir shim/viper -funcs "*"
g -real github.com/IfanTsai/go-lib/logger -dir shim/logger -funcs "*"
