#!/bin/bash
# addfindings.sh PROP [-thorough]: appends what the check reports now (after it was examined by hand) to known_findings.txt
cd /verif && ./run.sh "$@" -list | grep '^finding: ' | while IFS= read -r l; do
  k=$(printf '%s' "$l" | cut -d'|' -f1,2); grep -qF -- "$k" known_findings.txt || printf '%s\n' "$l"; done >> known_findings.txt
