#!/bin/bash
# Runs prog.rs against the kernel's sockets and the simulated ones and compares.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
for x in real sim; do
	mkdir "$tmp/$x.dir"
	(cd "$here/$x" && CARGO_TARGET_DIR=/verif/.build/conformance-$x RUSTFLAGS=-Awarnings cargo build --offline -q) || exit 2
	timeout 120 /verif/.build/conformance-$x/debug/conformance-$x "$tmp/$x.dir" > "$tmp/$x" || exit 2
done
wc -l < "$tmp/real"
diff "$tmp/real" "$tmp/sim" && echo "the simulated sockets behave like the kernel's in all of these"
