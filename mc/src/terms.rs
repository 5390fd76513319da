//! Apart from the other engines, as it needs more of the library's functions than they do.
use mc::{driver, model, report, util};
mod p30;

fn main() {
	driver::drive(|id| (id == "P30").then_some(p30::run as fn(&report::Ctx)))
}
