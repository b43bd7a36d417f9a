#!/bin/sh
# usage: sh replay.sh FILE   (a replay file named by a VIOLATION line)
# Exit 1 and a VIOLATION line when the violation happens again, 0 when it does not.
F=$(realpath "$1") || exit 2
exec sh "$(dirname "$0")/check.sh" replay "$F"
