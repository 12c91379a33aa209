//! Stands in for what the crate offers only with `alloc`, in builds without its default features.
#![cfg(not(feature = "full"))]

use crate::world::{PortErr, SimPort};
use dynamixel2::{Client, Device, Instruction, ReadError};
use std::time::Duration;

pub trait NewBare: Sized {
	fn new(p: SimPort) -> Result<Self, PortErr>;
}

impl NewBare for Client<SimPort, Vec<u8>> {
	fn new(p: SimPort) -> Result<Self, PortErr> {
		Client::with_buffers(p, vec![0; 128], vec![0; 128])
	}
}

impl NewBare for Device<SimPort, Vec<u8>> {
	fn new(p: SimPort) -> Result<Self, PortErr> {
		Device::with_buffers(p, vec![0; 128], vec![0; 128])
	}
}

pub trait ReadBare {
	fn read_owned(&mut self, t: Duration) -> Result<Instruction<&[u8]>, ReadError<PortErr>>;
}

impl ReadBare for Device<SimPort, Vec<u8>> {
	fn read_owned(&mut self, t: Duration) -> Result<Instruction<&[u8]>, ReadError<PortErr>> {
		self.read(t)
	}
}
