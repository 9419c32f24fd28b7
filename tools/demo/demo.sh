#!/bin/bash
# Compiles the library's sources of the current directory together with the demonstration and runs it.
here=$(cd "$(dirname "$0")" && pwd)
root=$(pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
plugin=unthreaded; san="-fsanitize=address,undefined -fno-sanitize-recover=all"; extra=""
[ -f "$here/options" ] && . "$here/options"
glib=""; lglib=""
if [ "$plugin" = threaded ]; then glib=$(pkg-config --cflags glib-2.0); lglib=$(pkg-config --libs glib-2.0); fi
clang -w -g -O1 $san -DSV_VENDOR_AXIS_COMMUNICATIONS -I"$root/lib/src" -I"$root/lib/src/includes" -I"$root/lib/vendors" -I"$root/lib/plugins" -I"$here" $glib \
  $(find "$root/lib/src" "$root/lib/vendors" -name '*.c') $(find "$root/lib/plugins/$plugin-signing" -name '*.c') "$here/demo.c" $extra $lglib -lcrypto -lpthread -o "$tmp/demo" || exit 2
cd "$tmp"
ASAN_OPTIONS=detect_leaks=${leaks:-0} timeout 200 ./demo
