//! The simulator with the C library's system calls replaced: the adapter for real serial ports on a simulated terminal.

use dxlsim::runner::{main_with, Scenario};
use dxlsim::*;

dxlsim::os_shims!();

fn main() {
	let s = |name, f: fn(&world::W), quick, thorough| Scenario { name, prop: "C15", f, quick, thorough };
	let scs = [
		s("c15_port", s_os::c15_port, 800_000, 400_000_000),
		s("c15_model", s_os::c15_model, 400_000, 200_000_000),
		s("c15_faults", s_os::c15_faults, 400_000, 200_000_000),
		s("c15_open", s_os::c15_open, 800_000, 400_000_000),
		s("c15_device", s_os::c15_device, 400_000, 200_000_000),
		s("c15_port_long", |w| s_wire::long(w, s_os::c15_port), 200, 8_000),
		s("c15_model_long", |w| s_wire::long(w, s_os::c15_model), 200, 8_000),
		s("c15_faults_long", |w| s_wire::long(w, s_os::c15_faults), 200, 8_000),
		s("c15_device_long", |w| s_wire::long(w, s_os::c15_device), 200, 8_000),
	];
	std::process::exit(main_with(&scs, &meta::all()));
}
