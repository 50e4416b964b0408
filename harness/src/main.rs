mod util;
mod basic;
mod seqs;
mod shapes;
mod le;
mod proofs;
use util::*;

fn main() {
	let a: Vec<String> = std::env::args().collect();
	if a.len() < 2 { eprintln!("usage: harness ID [seed] [quick|thorough] [budget_s]"); std::process::exit(2) }
	let seed: u64 = a.get(2).and_then(|s| s.parse().ok()).unwrap_or(1);
	let thorough = a.get(3).map(|s| s == "thorough").unwrap_or(false);
	let budget: f64 = a.get(4).and_then(|s| s.parse().ok()).unwrap_or(if thorough { 600.0 } else { 120.0 });
	silence_panics();
	let id = a[1].clone();
	// A case that does not return within a minute (they take milliseconds) hangs.
	let begin = std::time::Instant::now();
	std::thread::spawn(move || loop {
		std::thread::sleep(std::time::Duration::from_millis(500));
		let s = CASE_START.load(std::sync::atomic::Ordering::Relaxed);
		if s > 0 && begin.elapsed().as_millis() as u64 > s + 60_000 { println!("HANG"); std::process::exit(3) }
	});
	let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
		silence_panics();
		let mut c = Ctx::new(&id, seed, thorough, budget);
		match id.as_str() {
			"C01" => basic::c01(&mut c),
			"C02" => basic::c02(&mut c),
			"C03" => basic::c03(&mut c),
			"C04" => basic::c04(&mut c),
			"C05" => basic::c05(&mut c),
			"C06" => seqs::c06(&mut c),
			"C07" => seqs::c07(&mut c),
			"C08" => seqs::c08(&mut c),
			"C09" => seqs::c09(&mut c),
			"C10" => seqs::c10(&mut c),
			"C11" => le::c11(&mut c),
			"C12" => le::c12(&mut c),
			"C13" => proofs::c13(&mut c),
			"C14" => proofs::c14(&mut c),
			"C15" => le::c15(&mut c),
			"C16" => le::c16(&mut c),
			"C17" => le::c17(&mut c),
			x => { eprintln!("unknown property {}", x); std::process::exit(2) },
		}
		println!("{}", c.json());
		if c.fail.is_some() { 1 } else { 0 }
	}).unwrap();
	std::process::exit(h.join().unwrap_or(2));
}
