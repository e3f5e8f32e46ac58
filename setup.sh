#!/bin/bash
# Warms the build cache: compiles the runtime overlay and every harness against /repo once.
here=$(cd "$(dirname "$0")" && pwd)
for d in "$here"/harness/c[0-9][0-9]; do
	bash "$here/check.sh" "$(basename "$d" | tr a-z A-Z)" -build || exit 1
done
