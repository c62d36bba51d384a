//! M01: the small instances of ../ub, executed by Miri and under ASan.
use crate::run::{family, Ctx, Family, Property};
use std::io::Read;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

const KEPT: &str = "solve-model-kept";

fn root() -> String {
	std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".to_string())
}

fn no_answer(why: &str) -> ! {
	eprintln!("M01: no answer: {}", why);
	std::process::exit(2);
}

struct Ended {
	code: Option<i32>,
	out: String,
	err: String,
}

fn run(mut c: Command, limit: Duration) -> Ended {
	let mut ch = c
		.stdin(Stdio::null())
		.stdout(Stdio::piped())
		.stderr(Stdio::piped())
		.spawn()
		.unwrap_or_else(|e| no_answer(&format!("{}", e)));
	let (mut o, mut e) = (ch.stdout.take().unwrap(), ch.stderr.take().unwrap());
	let ro = std::thread::spawn(move || {
		let mut b = Vec::new();
		let _ = o.read_to_end(&mut b);
		String::from_utf8_lossy(&b).into_owned()
	});
	let re = std::thread::spawn(move || {
		let mut b = Vec::new();
		let _ = e.read_to_end(&mut b);
		String::from_utf8_lossy(&b).into_owned()
	});
	let t = Instant::now();
	loop {
		match ch.try_wait() {
			Ok(Some(s)) => {
				return Ended { code: s.code(), out: ro.join().unwrap(), err: re.join().unwrap() }
			}
			Ok(None) if t.elapsed() > limit => {
				let _ = ch.kill();
				no_answer("an instance takes too long");
			}
			Ok(None) => std::thread::sleep(Duration::from_millis(20)),
			Err(e) => no_answer(&format!("{}", e)),
		}
	}
}

fn miri(args: &[String]) -> Command {
	let mut c = Command::new("cargo");
	c.args(["+nightly", "miri", "run", "--release", "--offline", "-q", "--"])
		.args(args)
		.current_dir(format!("{}/ub", root()))
		.env("CARGO_TARGET_DIR", format!("{}/target-miri", root()))
		.env("MIRIFLAGS", "-Zmiri-tree-borrows -Zmiri-ignore-leaks -Zmiri-seed=1");
	c
}

fn asan(args: &[String], crumb: &str) -> Command {
	let mut c = Command::new(format!("{}/target-miri/x86_64-unknown-linux-gnu/release/ub", root()));
	c.args(args)
		.env("UB_CRUMB", crumb)
		.env("ASAN_OPTIONS", "detect_leaks=0:allocator_may_return_null=1");
	c
}

fn tail(s: &str, n: usize) -> String {
	let l: Vec<&str> = s.lines().collect();
	l[l.len().saturating_sub(n)..].join(" | ")
}

fn judge(tool: &str, e: &Ended, case: Option<String>) -> Result<(), String> {
	if e.code == Some(0) && e.out.contains("\nDONE ") {
		return Ok(());
	}
	let case = case
		.or_else(|| e.out.lines().rev().find(|l| l.starts_with('@')).map(|l| l.to_string()))
		.unwrap_or_default();
	if let Some(l) = e.out.lines().find(|l| l.starts_with("BAD ")) {
		return Err(format!("{} {}", tool, l));
	}
	if let Some(p) = e.err.find("Undefined Behavior:") {
		let what: Vec<&str> = e.err[p..].lines().take(2).map(|l| l.trim()).collect();
		let at = e.err[p..]
			.lines()
			.map(|l| l.trim())
			.find(|l| l.starts_with("at ") && l.contains("/repo/") || l.starts_with("--> /repo"))
			.unwrap_or("");
		return Err(format!("{} in instance {}: {} {}", tool, case, what.join(" "), at));
	}
	if let Some(p) = e.err.find("ERROR: AddressSanitizer: ") {
		let what = e.err[p..].lines().next().unwrap().to_string();
		let benign = ["out of memory", "allocation-size-too-big", "stack-overflow", "requested allocation"];
		if !benign.iter().any(|b| what.contains(b)) {
			return Err(format!("{} in instance {}: {}", tool, case, what));
		}
	}
	no_answer(&format!("{} ended with {:?} in {}: {}", tool, e.code, case, tail(&e.err, 12)));
}

fn count(e: &Ended, ctx: &mut Ctx) {
	for l in e.out.lines().filter(|l| l.starts_with("FAM ")) {
		let mut w = l.split(' ').skip(1);
		let name = w.next().unwrap();
		let n: u64 = w.next().unwrap().parse().unwrap();
		*ctx.notes.entry(format!("instances of {}", name)).or_insert(0) += n;
	}
	if let Some(l) = e.out.lines().find(|l| l.starts_with("DONE ")) {
		let n: Vec<u64> = l.split(' ').skip(1).map(|x| x.parse().unwrap()).collect();
		ctx.states += n[0];
		ctx.traces += n[0];
		ctx.transitions += n[1];
		ctx.nontrivial += n[0];
		*ctx.notes.entry("calls refused".into()).or_insert(0) += n[2];
		ctx.outcome_of(&n);
	}
}

fn shards(tool: &'static str, n: u64, tier: &'static str, limit: u64) -> Family {
	family(tool, n, move |c, ctx| {
		let args = ["shard".to_string(), c.to_string(), n.to_string(), tier.to_string()];
		let crumb = format!("{}/ub-crumb-{}-{}", std::env::temp_dir().display(), std::process::id(), c);
		let under_miri = tool.contains("Miri");
		let cmd = if under_miri { miri(&args) } else { asan(&args, &crumb) };
		let e = run(cmd, Duration::from_secs(limit));
		let at = std::fs::read_to_string(&crumb).ok().map(|s| s.lines().next().unwrap_or("").trim().to_string());
		let _ = std::fs::remove_file(&crumb);
		ctx.sample(|| format!("shard {} of {}: {}", c, n, e.out.lines().last().unwrap_or("")));
		count(&e, ctx);
		judge(tool, &e, if under_miri { None } else { at })
	})
	.chunk(1)
	.serial()
	.limit(limit + 60)
}

pub fn m01(thorough: bool) -> Property {
	let tier = if thorough { "deep" } else { "quick" };
	let (n, limit) = if thorough { (96, 3600) } else { (24, 700) };
	let known = std::fs::read_to_string(format!("{}/known_findings.txt", root())).unwrap_or_default();
	let listed = known.lines().any(|l| l.starts_with("known: property=M01 ") && l.contains(KEPT));
	Property {
		id: "M01",
		rule: "Each instance is executed by Miri (tree borrows, no debug assertions, wrapping arithmetic), which monitors every load, store, value and pointer, and natively under ASan; after each instance every label must have been dropped exactly once and, on one thread, every byte returned. Refused calls (panics) are caught and the objects used further. Callbacks of labels, closures, models and generators panic at each of their calls in turn.",
		assumptions: vec![
			"Instances, not programs: unsafe behaviour that needs more than the enumerated sizes is out of reach.".into(),
			"The aliasing model is tree borrows (the thread pool's queue does not pass stacked borrows).".into(),
			"Miri follows one schedule; its race detector judges the happens-before order of that schedule.".into(),
			"A solver generator that keeps the 'static reference to the model is a known finding and run apart.".into(),
		],
		bounds: if thorough {
			"states of 0..17 bits, three calls (ASan) or two (Miri); dense models to 5 nodes, sparse to 6 products; expressions of two operators over ten operand shapes; panics at the first 400 callbacks"
		} else {
			"states of 0..9 bits (ASan: 17), two calls; dense models to 3 nodes, sparse to 6 products; expressions of two operators over five (ASan: ten) operand shapes; panics at the first 5 (ASan: 40) callbacks"
		},
		families: vec![
			shards("instances under ASan", 32, tier, limit),
			shards("instances under Miri", n, tier, limit),
			family("a generator keeps its model", 1, move |_, ctx| {
				let args = ["one".to_string(), KEPT.to_string(), "0".to_string(), "quick".to_string()];
				let e = run(miri(&args), Duration::from_secs(120));
				count(&e, ctx);
				match judge("Miri", &e, None) {
					Err(m) if listed && m.contains("Undefined Behavior") && m.contains(KEPT) => {
						println!("KNOWN-FINDING: property=M01 {}: a solver generator that keeps the 'static model it is given reads freed memory after the call", KEPT);
						ctx.nontrivial += 1;
						ctx.note("known findings met");
						Ok(())
					}
					r => r,
				}
			})
			.serial()
			.limit(200),
		],
	}
}
