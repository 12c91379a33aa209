//! The parent of simulated processes: runs the command line tool and judges it.

use dxlsim::runner::{main_with, Scenario};
use dxlsim::*;

fn main() {
	for k in ["DXL_CLI", "DXL_PRELOAD"] {
		if !std::env::var_os(k).is_some_and(|p| std::path::Path::new(&p).exists()) {
			eprintln!("{k} must name an existing file");
			std::process::exit(2);
		}
	}
	let s = |name, f: fn(&world::W), quick, thorough| Scenario { name, prop: "C16", f, quick, thorough };
	let scs = [
		s("c16_healthy", s_cli::c16_healthy, 40_000, 2_000_000),
		s("c16_mild", s_cli::c16_mild, 25_000, 1_200_000),
		s("c16_chaos", s_cli::c16_chaos, 25_000, 1_200_000),
		s("c16_args", s_cli::c16_args, 8_000, 400_000),
	];
	std::process::exit(main_with(&scs, &meta::all()));
}
