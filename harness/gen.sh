#!/bin/bash
# gen.sh DIR: the program's source as a module: /repo/src/main.rs plus one public entry
set -e
d=$1
mkdir -p "$d"
# modules of its own, if it has any
(cd /repo/src && find . -name '*.rs' ! -path ./main.rs | while read -r f; do mkdir -p "$d/$(dirname "$f")"; cmp -s "$f" "$d/$f" || cp "$f" "$d/$f"; done)
sed -e 's/\bcrate::/crate::cli::/g' /repo/src/main.rs > "$d/main.rs.new"
cat >> "$d/main.rs.new" <<'R'

/// runs the program; the exit code it would have
pub fn run_main() -> i32 {
    let c: std::process::ExitCode = std::process::Termination::report(main());
    let b: u8 = unsafe { std::mem::transmute(c) };
    b as i32
}
R
cmp -s "$d/main.rs.new" "$d/main.rs" || cp "$d/main.rs.new" "$d/main.rs"
rm -f "$d/main.rs.new"

# the harness entries, for the replay build
{
	echo 'pub static TABLE: &[(&str, extern "C" fn())] = &['
	cd "$(dirname "$0")/src"
	for f in p_*.rs smoke.rs; do
		m=${f%.rs}
		grep -o 'pub extern "C" fn h_[a-z0-9_]*()' "$f" | sed -E "s/.* (h_[a-z0-9_]*)\(\)/    (\"\1\", crate::$m::\1),/"
	done
	echo '];'
} > "$d/registry.new"
cmp -s "$d/registry.new" "$d/registry.rs" || cp "$d/registry.new" "$d/registry.rs"
rm -f "$d/registry.new"
