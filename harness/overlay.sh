#!/bin/bash
# overlay.sh DIR: writes DIR/overlay.json, which makes the runtime ask
# internal/runtime/maps.IterHook where a map iteration starts, and SeedHook for
# the hash seed of a map.
set -e
D="$1"; G="$(go env GOROOT)"; F="$G/src/internal/runtime/maps/table.go"; M="$G/src/internal/runtime/maps/map.go"
grep -q 'it.entryOffset = rand()' "$F" && grep -q 'it.dirOffset = rand()' "$F" && grep -q 'm.seed = uintptr(rand())' "$M"
sed -e 's/it\.entryOffset = rand()/if IterHook != nil { it.entryOffset = IterHook(m.used) } else { it.entryOffset = rand() }/' \
    -e 's/it\.dirOffset = rand()/if IterHook != nil { it.dirOffset = it.entryOffset >> 3 } else { it.dirOffset = rand() }/' "$F" > "$D/table.go"
echo 'var IterHook func(used uint64) uint64' >> "$D/table.go"
sed -e 's/m\.seed = uintptr(rand())/m.seed = newSeed()/' "$M" > "$D/map.go"
cat >> "$D/map.go" <<'G'

var SeedHook uint64

func newSeed() uintptr {
	if SeedHook != 0 {
		return uintptr(SeedHook)
	}
	return uintptr(rand())
}
G
printf '{"Replace":{"%s":"%s/table.go","%s":"%s/map.go"}}' "$F" "$D" "$M" "$D" > "$D/overlay.json"
