#!/bin/bash
# Usage: check.sh ID...   Decides the properties on /repo's current source.
dir="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$dir"
if [ ! -x "$dir/bin/solidcheck" ] || [ -n "$(find "$dir/checker" -maxdepth 1 -name '*.go' -newer "$dir/bin/solidcheck" -print -quit)" ]; then
	bash "$dir/setup.sh" || exit 2
fi
exec "$dir/bin/solidcheck" check "$@"
