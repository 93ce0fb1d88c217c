#!/bin/bash
# Typechecks the specifications; nothing is installed or cached.
set -e
cd "$(dirname "$0")"
export NODE_OPTIONS="--require $PWD/harness/quint_fixes.js"
ls spec/*.qnt | xargs -P 8 -I{} sh -c 'quint typecheck {} >/dev/null || { echo "typecheck failed: {}"; exit 255; }'
quint test spec/eig.qnt --main eig >/dev/null
quint test spec/elem.qnt --main elem >/dev/null
echo "setup ok: $(ls spec/*.qnt | wc -l) specifications"
