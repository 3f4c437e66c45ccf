#!/bin/bash
# regenerates harness/src/table.rs (name -> contract function) from the contract modules
cd "$(dirname "$0")/../harness/src"
{
	echo "//! generated by tools/table.sh"
	echo "pub const CONTRACTS: &[(&str, fn())] = &["
	grep -Hno '^pub fn vc_[a-z0-9_]*()' *.rs | sed -E 's/^([a-z0-9_]+)\.rs:[0-9]+:pub fn (vc_[a-z0-9_]*)\(\)/\t("\1::\2", crate::\1::\2),/; s/^\t\("fund::/\t#[cfg(feature = "fund")]\n&/; s/^\t\("recv::/\t#[cfg(feature = "recv")]\n&/; s/^\t\("stake::/\t#[cfg(feature = "stake")]\n&/; s/^\t\("(lin|prox|disp)::/\t#[cfg(feature = "polimec")]\n&/; s/^\t\("(dem2?|elect|slash)::/\t#[cfg(feature = "gov")]\n&/'
	echo "];"
} > table.rs.new
cmp -s table.rs.new table.rs && rm table.rs.new || mv table.rs.new table.rs
