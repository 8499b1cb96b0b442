#!/bin/bash
# Builds the library sources of the current directory's lib/ in a scratch
# directory and runs demo.cpp against them: 0 iff everything it checks holds.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
PK="glib-2.0 gobject-2.0 gio-2.0 gthread-2.0 gmodule-2.0 libsoup-2.4 libxml-2.0 gdk-3.0 gdk-pixbuf-2.0 cairo fontconfig pango pangocairo librsvg-2.0 gstreamer-1.0 gstreamer-base-1.0 gstreamer-app-1.0 gstreamer-video-1.0 gtk+-3.0 atk jsoncpp lua5.3"
FL="-std=c++11 -O0 -w -fPIE -pthread $SANFLAGS -D_GLIBCXX_ASSERTIONS -I$D/shim -I$R/lib $(pkg-config --cflags $PK)"
S=$(sed -n '/set(LIBGINGA_SOURCES/,/)/p' "$R/CMakeLists.txt" | grep -o 'lib/[A-Za-z0-9_-]*\.cpp')
for f in $S; do echo "$R/$f"; done > "$T/list"
echo "$D/shim/stubs.cpp" >> "$T/list"; echo "$D/demo.cpp" >> "$T/list"
FL="$FL" T="$T" xargs -P 8 -I{} sh -c 'g++ $FL -I'"$D"' -c {} -o $T/$(basename {} .cpp).o || echo {} >> $T/bad' < "$T/list"
[ -e "$T/bad" ] && { echo "build failed"; exit 3; }
g++ -pthread $SANFLAGS -o "$T/demo" "$T"/*.o $(pkg-config --libs $PK) -ldl || exit 3
export DEMO_TMP=$T LC_ALL=C.UTF-8 TZ=UTC G_SLICE=always-malloc; unset DISPLAY
cd "$T" || exit 3
timeout 60 "$T/demo"
