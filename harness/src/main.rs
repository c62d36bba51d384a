#![allow(overflowing_literals, unused_mut, dead_code, dropping_copy_types)]
mod det;
mod num;
mod p_compile;
mod p_anneal;
mod p_e2e;
mod p_expr;
mod p_indep;
mod p_mem;
mod p_sa;
mod p_size;
mod p_solve;
mod p_stream;
mod qubo;
mod run;
mod tree;

fn main() {
	let args: Vec<String> = std::env::args().skip(1).collect();
	let id = args.first().cloned().unwrap_or_default();
	let get = |k: &str| args.iter().position(|a| a == k).map(|i| args[i + 1].clone());
	let tier = get("--tier")
		.or_else(|| std::env::var("VERIF_TIER").ok())
		.unwrap_or_else(|| "quick".to_string());
	let thorough = tier == "thorough";
	if let Some(key) = get("--alone") {
		println!("{}", p_indep::alone(&key));
		return;
	}
	let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
	let p = match id.as_str() {
		"C01" => p_compile::c01(thorough),
		"C02" => p_compile::c02(thorough),
		"C03" => p_expr::c03(thorough),
		"C04" => p_expr::c04(thorough),
		"C05" => p_expr::c05(thorough),
		"C06" => p_expr::c06(thorough),
		"S01" => p_solve::s01(thorough),
		"S02" => p_solve::s02(thorough),
		"S03" => p_solve::s03(thorough),
		"S04" => p_solve::s04(thorough),
		"S05" => p_solve::s05(thorough),
		"S06" => p_solve::s06(thorough),
		"S07" => p_indep::s07(thorough),
		"S08" => p_stream::s08(thorough),
		"A01" => p_anneal::a01(thorough),
		"A02" => p_anneal::a02(thorough),
		"A03" => p_anneal::a03(thorough),
		"A04" => p_anneal::a04(thorough),
		"A05" => p_anneal::a05(thorough),
		"A06" => p_anneal::a06(thorough),
		"A07" => p_anneal::a07(thorough),
		"E01" => p_e2e::e01(thorough),
		"K01" => p_sa::k01(thorough),
		"K02" => p_sa::k02(thorough),
		"K03" => p_sa::k03(thorough),
		"M01" => p_mem::m01(thorough),
		_ => {
			eprintln!("unknown property {:?}", id);
			std::process::exit(2);
		}
	};
	std::process::exit(run::main(p, &args, seed, thorough, get("--replay")));
}
