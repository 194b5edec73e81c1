#!/bin/bash
# Builds $1/bin: the checker, over copies of the packages in which the functions
# that open the terminal are replaced (see vrewrite).
set -e
cd "$(dirname "$0")/.."
go build -o "$1/vrewrite" ./vrewrite
mkdir -p "$1/src"
"$1/vrewrite" -nosync -r github.com/gdamore/tcell.NewScreen=verif/hook.NewScreen -r github.com/c-bata/go-prompt.New=verif/hook.NewPrompt \
	"$1/src" "$1/overlay.json" /repo/promq/term /repo/cmd/metrics
go build -overlay "$1/overlay.json" -o "$1/bin" ./live
