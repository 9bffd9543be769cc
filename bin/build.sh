#!/bin/bash
# Compiles /repo's main sources and the harness into .work/<hash of all inputs>; prints that directory.
# Everything offline; /repo is only read.
set -euo pipefail
ROOT="$(cd "$(dirname "$0")/.." && pwd)"
REPO="${MC_REPO:-/repo}"
J="${MC_JDK:-/usr/lib/jvm/java-21-openjdk-amd64}"
GC=/root/.gradle/caches/modules-2/files-2.1
jar() { find "$GC" -name "$1" | head -1; }
DEPS=""
for n in antlr4-runtime-4.13.2.jar vavr-0.10.4.jar vavr-match-0.10.4.jar maven-artifact-3.5.2.jar commons-lang3-3.5.jar caffeine-2.9.3.jar checker-qual-3.19.0.jar; do
  f="$(jar $n)"; [ -n "$f" ] && DEPS="$DEPS:$f"
done
DEPS="${DEPS#:}"
LOMBOK="$(jar lombok-1.18.34.jar)"
ASM="$(ls /opt/veriftools/java/bytecode/asm-*.jar /opt/veriftools/java/spotbugs/asm-commons-9.7.1.jar | tr '\n' ':')"
SRC="$REPO/src/main/java"
H="$( { cd "$SRC" && find . -type f -name '*.java' | LC_ALL=C sort | xargs sha256sum; cd "$ROOT/mc/src" && find . -type f | LC_ALL=C sort | xargs sha256sum; sha256sum "$ROOT/bin/build.sh"; } | sha256sum | cut -c1-16)"
OUT="$ROOT/.work/$H"
if [ ! -f "$OUT/ok" ]; then
  mkdir -p "$ROOT/.work"
  find "$ROOT/.work" -mindepth 1 -maxdepth 1 -type d -mmin +180 -exec rm -r {} + 2>/dev/null || true
  T="$(mktemp -d "$ROOT/.work/tmp.XXXXXX")"
  mkdir "$T/repo" "$T/mc"
  "$J/bin/javac" -nowarn -proc:full -encoding UTF-8 --release 21 -Xlint:none -g -cp "$DEPS:$LOMBOK" -processorpath "$LOMBOK" -d "$T/repo" $(find "$SRC" -name '*.java') >"$T/repo.log" 2>&1 || { cat "$T/repo.log" >&2; exit 3; }
  "$J/bin/javac" -nowarn -proc:none -encoding UTF-8 --release 21 -Xlint:none -g -cp "$T/repo:$DEPS:$ASM" -d "$T/mc" $(find "$ROOT/mc/src" -name '*.java') >"$T/mc.log" 2>&1 || { cat "$T/mc.log" >&2; exit 3; }
  echo "$DEPS" >"$T/deps"; echo "$ASM" >"$T/asm"
  touch "$T/ok"
  mv -T "$T" "$OUT" 2>/dev/null || { [ -f "$OUT/ok" ]; find "$T" -delete; }
fi
echo "$OUT"
