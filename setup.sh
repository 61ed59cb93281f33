#!/bin/sh
# nothing to install: checks compile their harnesses themselves. Only verify that the tools are there.
set -e
command -v g++ >/dev/null
command -v python3 >/dev/null
test -d /repo/include/samurai
echo setup ok
