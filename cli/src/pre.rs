//! Preloaded into the command line tool: replaces the C library's system calls by the simulated kernel.

dxlsim::os_shims!();

extern "C" fn start() {
	dxlsim::s_cli::child_start();
}

#[used]
#[link_section = ".init_array"]
static START: extern "C" fn() = start;
