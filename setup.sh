#!/bin/bash
# Nothing to install: the checks use the pre-installed quint, g++ and python3.
# Verify that they are there and that the fixed-point library of the
# specifications is accurate (identities over random arguments).
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
command -v quint g++ python3 >/dev/null
quint run spec/selftest.qnt --max-steps 1500 --max-samples 1 --seed "${VERIF_SEED:-1}" --invariant inv --verbosity 1
