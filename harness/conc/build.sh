#!/bin/bash
# Builds $1/bin: the checker with the race detector, over copies of the packages
# in which vsync stands in for sync, and the functions that open the terminal
# are replaced (see vrewrite).
set -e
cd "$(dirname "$0")/.."
go build -o "$1/vrewrite" ./vrewrite
mkdir -p "$1/src"
"$1/vrewrite" -r github.com/gdamore/tcell.NewScreen=verif/hook.NewScreen -r github.com/c-bata/go-prompt.New=verif/hook.NewPrompt \
	"$1/src" "$1/overlay.json" /repo/promq/prom /repo/promq/term /repo/cmd/metrics
go build -race -overlay "$1/overlay.json" -o "$1/bin" ./conc
