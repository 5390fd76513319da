use crate::{report, util};
use std::{os::unix::process::ExitStatusExt, path::PathBuf, process::Command};

/// Runs the engine of the property that is named on the command line.
pub fn drive(engine: impl Fn(&str) -> Option<fn(&report::Ctx)>) -> ! {
	let args: Vec<String> = std::env::args().collect();
	let id = args.get(1).cloned().unwrap_or_default();
	let replay: Option<PathBuf> =
		args.iter().position(|a| a == "--replay").and_then(|i| args.get(i + 1)).map(Into::into);
	let Some(run) = engine(&id) else {
		eprintln!("unknown property {id:?}");
		std::process::exit(2)
	};
	if std::env::var("MC_CHILD").is_ok() {
		util::install_hook();
		let ctx = Box::leak(Box::new(report::Ctx::new(&id, replay)));
		let ctx: &'static report::Ctx = ctx;
		let slots = PathBuf::from(std::env::var("MC_CHILD").unwrap());
		std::thread::spawn(move || ctx.watchdog(&slots));
		run(ctx);
		std::process::exit(ctx.finish());
	}
	// The engine runs in a child, so that the death of the process is observed as well.
	let dir = std::env::temp_dir().join(format!("mc-{}-{}", id, std::process::id()));
	std::fs::create_dir_all(&dir).expect("scratch directory");
	let exe = std::env::current_exe().expect("own path");
	let child = |replay: Option<&PathBuf>, quiet: bool| {
		let slots = dir.join("slots");
		std::fs::write(&slots, []).expect("slot file");
		let mut c = Command::new(&exe);
		c.arg(&id).env("MC_CHILD", &slots).env("MC_SCRATCH", &dir);
		if let Some(r) = replay {
			c.arg("--replay").arg(r);
		}
		if quiet {
			c.stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
		}
		let st = c.status().expect("cannot start the engine");
		(st, report::read_slots(&slots))
	};
	let (st, slots) = child(replay.as_ref(), false);
	let mut code = st.code().unwrap_or(2);
	if !matches!(code, 0 | 1) {
		code = 2;
	}
	if let Some(sig) = st.signal() {
		// Which of the running cases killed it?
		let ctx = report::Ctx::new(&id, None);
		for (i, s) in slots.iter().enumerate() {
			let f = dir.join(format!("candidate-{i}"));
			std::fs::write(&f, format!("case: {}\n", report::escape(s))).expect("candidate");
			let (st, _) = child(Some(&f), true);
			if st.signal().is_some() {
				ctx.state();
				ctx.steps(1);
				ctx.trace();
				ctx.sample(|| s.clone());
				ctx.violation(s, format!("the process died with signal {sig}"));
			}
		}
		if ctx.violated() > 0 {
			code = ctx.finish();
		} else {
			eprintln!("the engine died with signal {sig}");
			code = 2;
		}
	}
	let _ = std::fs::remove_dir_all(&dir);
	std::process::exit(code)
}
