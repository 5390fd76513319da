use mc::*;

fn engine(id: &str) -> Option<fn(&report::Ctx)> {
	Some(match id {
		"P01" => p01::run,
		"P02" => p02::run,
		"P03" => p03::run,
		"P04" => p04::run,
		"P05" => p05::run,
		"P06" => p06::run,
		"P07" => p07::run,
		"P08" => p08::run,
		"P09" => p09::run,
		"P10" => p10::run,
		"P11" => p10::sorting,
		"P12" => p12::run,
		"P13" => p13::run,
		"P14" => p14::run,
		_ => return None,
	})
}

/// `compare <repo> <old> <new> <pattern> <limit>`: one comparison through the library.
fn compare(args: &[String]) -> ! {
	let params = subweight_core::CompareParams {
		method: subweight_core::CompareMethod::Base,
		unit: subweight_core::Dimension::Time,
		ignore_errors: false,
		git_pull: false,
		git_force: false,
		offline: false,
	};
	let filter = subweight_core::FilterParams { threshold: 0.0, change: None, extrinsic: None, pallet: None };
	let limit = args[4].parse().expect("a number");
	match subweight_core::compare_commits(std::path::Path::new(&args[0]), &args[1], &args[2], &params, &filter, &args[3], limit) {
		Ok(diff) => diff.iter().for_each(|d| println!("{}", d.file)),
		Err(e) => {
			println!("{e}");
			std::process::exit(1)
		},
	}
	std::process::exit(0)
}

fn main() {
	let args: Vec<String> = std::env::args().collect();
	if args.get(1).is_some_and(|a| a == "compare") {
		compare(&args[2..])
	}
	driver::drive(engine)
}
