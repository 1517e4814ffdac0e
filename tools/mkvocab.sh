#!/bin/bash
# Writes pyvc/vocab.json: the opaque library functions in the verification conditions of each
# obligation on the unchanged tree.  Run by hand when a contract changes.
cd "$(dirname "$0")/.."
rm -f pyvc/vocab.json
for p in C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16; do
  PYVC_VOCAB=$PWD/pyvc/vocab.json VERIF_EVID=/tmp/vocab_evidence PYTHONHASHSEED=0 VERIF_NOBOUNDED=1 /opt/venv/bin/python -W ignore checks/run.py $p | tail -1
done
rm -rf /tmp/vocab_evidence
