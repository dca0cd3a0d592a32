#!/bin/bash
# run in the repository after it was built: 0 if the assembler behaves, 1 if not
EXE="$PWD/_build/win64/uasm.exe"
W=$(mktemp -d)
mkdir -p "$W/wine/dosdevices" "$W/src"
for f in system.reg user.reg userdef.reg .update-timestamp; do cp -p "/opt/vp/wine/$f" "$W/wine/$f"; done
ln -s /opt/vp/wine/drive_c "$W/wine/drive_c"
ln -s ../drive_c "$W/wine/dosdevices/c:"
ln -s / "$W/wine/dosdevices/z:"
export HOME=/root LC_ALL=C LANG=C TZ=UTC WINEPREFIX="$W/wine" WINEDEBUG=-all WINEARCH=win64
export WINEDLLOVERRIDES="mscoree,mshtml,winemenubuilder.exe,winedbg.exe=d"
unset DISPLAY ASM UASM JWASM INCLUDE
finish() { wineserver -k 2>/dev/null; wineserver -w 2>/dev/null; rm -rf "$W"; exit "$1"; }
asm() { timeout 120 wine "$EXE" -q "$@" </dev/null >"$W/console" 2>/dev/null; }
hex() { od -An -v -tx1 "$1" 2>/dev/null | tr -d ' \n'; }
cd "$W/src"
# ---------------------------------------------------------------------
