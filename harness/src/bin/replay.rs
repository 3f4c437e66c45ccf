//! Replays a counterexample of a contract against the real, compiled code.
use sp_io::hashing::{blake2_128, twox_128, twox_64};
use std::panic::{catch_unwind, AssertUnwindSafe};
use vharness::{rt, table};

fn hex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }

fn main() {
	let path = std::env::args().nth(1).expect("file");
	let d: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
	let name = d["root"].as_str().unwrap().to_string();
	let Some((_, f)) = table::CONTRACTS.iter().find(|(n, _)| *n == name) else {
		println!("{{\"error\":\"no contract {name}\"}}");
		return;
	};
	let c = &d["cex"];
	let strs = |v: &serde_json::Value| -> Vec<String> { v.as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default() };
	rt::TRACE.with(|t| {
		let mut t = t.borrow_mut();
		t.anys = strs(&c["anys"]).iter().map(|s| hex(s)).collect();
		t.params = strs(&c["params"]).iter().map(|s| s.parse().unwrap()).collect();
	});
	std::panic::set_hook(Box::new(|_| {}));
	let mut outcome = String::new();
	sp_io::TestExternalities::default().execute_with(|| {
		for s in c["storage"].as_array().unwrap_or(&vec![]) {
			let (p, i) = s["item"].as_str().unwrap().split_once('.').unwrap();
			let mut k = [twox_128(p.as_bytes()), twox_128(i.as_bytes())].concat();
			for part in s["keys"].as_array().unwrap() {
				let b = hex(part[1].as_str().unwrap());
				match part[0].as_str().unwrap() {
					"Identity" => k.extend(b),
					"Twox64Concat" => {
						k.extend(twox_64(&b));
						k.extend(b)
					},
					"Blake2_128Concat" => {
						k.extend(blake2_128(&b));
						k.extend(b)
					},
					h => panic!("hasher {h}"),
				}
			}
			sp_io::storage::set(&k, &hex(s["value"].as_str().unwrap()));
		}
		rt::START.with(|s| *s.borrow_mut() = rt::snapshot());
		outcome = match catch_unwind(AssertUnwindSafe(|| f())) {
			Ok(()) => "returned".into(),
			Err(e) =>
				if e.is::<rt::AssumeFailed>() {
					"precondition".into()
				} else {
					let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
					format!("panic: {m}")
				},
		};
	});
	rt::TRACE.with(|t| {
		let t = t.borrow();
		println!("{}", serde_json::json!({"root": name, "outcome": outcome, "failed": t.failed, "passed": t.passed, "covers": t.covers}));
	});
}
