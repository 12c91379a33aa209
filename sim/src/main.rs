use dxlsim::runner::{main_with, Scenario};
use dxlsim::*;

fn main() {
	let s = |name, prop, f, quick, thorough| Scenario { name, prop, f, quick, thorough };
	let scs = [
		s("c01_client", "C01", s_wire::c01 as fn(&world::W), 1_200_000, 40_000_000),
		s("c01_large", "C01", s_wire::c01_large, 12_000, 400_000),
		s("c01_dev", "C01", s_wire::c01_dev, 1_200_000, 40_000_000),
		s("c03_client", "C03", s_line::c03, 1_200_000, 40_000_000),
		s("c03_dev", "C03", s_line::c03_dev, 1_200_000, 40_000_000),
		s("c03_dev_large", "C03", s_line::c03_dev_large, 40_000, 1_500_000),
		s("c03_large", "C03", s_line::c03_large, 40_000, 1_500_000),
		s("c04_client", "C04", s_line::c04, 1_200_000, 40_000_000),
		s("c04_large", "C04", s_line::c04_large, 40_000, 1_500_000),
		s("c05_stream", "C05", s_frame::c05, 1_200_000, 40_000_000),
		s("c05_large", "C05", s_frame::c05_large, 3_000, 100_000),
		s("c05_long", "C05", s_frame::c05_long, 200, 8_000),
		s("c06_client", "C06", s_frame::c06, 1_200_000, 40_000_000),
		s("c06_device", "C06", s_frame::c06_dev, 1_200_000, 40_000_000),
		s("c06_dead", "C06", s_frame::c06_dead, 240_000, 8_000_000),
		s("c06_zero", "C06", s_frame::c06_zero, 60_000, 2_000_000),
		s("c06_large", "C06", s_frame::c06_large, 8_000, 300_000),
		s("c07_client", "C07", s_frame::c07, 1_200_000, 40_000_000),
		s("c07_device", "C07", s_frame::c07_dev, 1_200_000, 40_000_000),
		s("c11_dev", "C11", s_dev::c11_dev, 1_200_000, 40_000_000),
		s("c11_pair", "C11", s_dev::c11_pair, 1_200_000, 40_000_000),
		s("c11_crowd", "C11", s_dev::c11_crowd, 20_000, 700_000),
		s("c12_client", "C12", s_line::c12, 1_200_000, 40_000_000),
		s("c12_dev", "C12", s_line::c12_dev, 1_200_000, 40_000_000),
		s("c12_dev_large", "C12", s_line::c12_dev_large, 6_000, 200_000),
		s("c12_large", "C12", s_line::c12_large, 6_000, 200_000),
		s("c13_client", "C13", s_wire::c13, 1_200_000, 40_000_000),
		s("c13_dev", "C13", s_wire::c13_dev, 1_200_000, 40_000_000),
		s("c13_large", "C13", s_wire::c13_large, 6_000, 200_000),
		s("c14_values", "C14", s_val::c14, 1_200_000, 40_000_000),
		s("c02_model", "C02", s_model::c02 as fn(&world::W), 1_200_000, 40_000_000),
		s("c02_large", "C02", s_model::c02_large, 8_000, 300_000),
		s("c02_long", "C02", s_model::c02_long, 150, 6_000),
		s("c08_crowd", "C08", s_model::c08_crowd, 6_000, 200_000),
		s("c08_silent", "C08", s_model::c08_silent, 100_000, 6_000_000),
		s("c08_lists", "C08", s_model::c08_lists, 3_000, 100_000),
		s("c08_large", "C08", s_model::c08_large, 4_000, 150_000),
		s("c09_large", "C09", s_model::c09_large, 4_000, 150_000),
		s("c09_crowd", "C09", s_model::c09_crowd, 6_000, 200_000),
		s("c08_multi", "C08", s_model::c08, 1_200_000, 40_000_000),
		s("c09_writes", "C09", s_model::c09, 1_200_000, 40_000_000),
		s("c10_bcast", "C10", s_model::c10, 1_200_000, 40_000_000),
		s("c10_large", "C10", s_model::c10_large, 3_000, 100_000),
		s("c18_errors", "C18", s_model::c18, 1_200_000, 40_000_000),
		s("c18_crowd", "C18", s_model::c18_crowd, 12_000, 400_000),
		s("c01_client_long", "C01", |w| s_wire::long(w, s_wire::c01), 600, 25_000),
		s("c01_dev_long", "C01", |w| s_wire::long(w, s_wire::c01_dev), 600, 25_000),
		s("c03_long", "C03", |w| s_wire::long(w, s_line::c03), 600, 25_000),
		s("c04_long", "C04", |w| s_wire::long(w, s_line::c04), 600, 25_000),
		s("c06_long", "C06", |w| s_wire::long(w, s_frame::c06), 600, 25_000),
		s("c06_device_long", "C06", |w| s_wire::long(w, s_frame::c06_dev), 600, 25_000),
		s("c07_long", "C07", |w| s_wire::long(w, s_frame::c07), 600, 25_000),
		s("c08_long", "C08", |w| s_wire::long(w, s_model::c08), 100, 4_000),
		s("c08_silent_long", "C08", |w| s_wire::long(w, s_model::c08_silent), 100, 4_000),
		s("c09_long", "C09", |w| s_wire::long(w, s_model::c09), 100, 4_000),
		s("c10_long", "C10", |w| s_wire::long(w, s_model::c10), 600, 25_000),
		s("c11_dev_long", "C11", |w| s_wire::long(w, s_dev::c11_dev), 600, 25_000),
		s("c11_pair_long", "C11", |w| s_wire::long(w, s_dev::c11_pair), 600, 25_000),
		s("c12_long", "C12", |w| s_wire::long(w, s_line::c12), 600, 25_000),
		s("c12_dev_long", "C12", |w| s_wire::long(w, s_line::c12_dev), 600, 25_000),
		s("c13_client_long", "C13", |w| s_wire::long(w, s_wire::c13), 600, 25_000),
		s("c13_dev_long", "C13", |w| s_wire::long(w, s_wire::c13_dev), 600, 25_000),
		s("c18_long", "C18", |w| s_wire::long(w, s_model::c18), 600, 25_000),
		s("c02_any_long", "C02", |w| s_wire::long(w, s_model::c02), 100, 4_000),
	];
	let metas = dxlsim::meta::all();
	std::process::exit(main_with(&scs, &metas));
}
