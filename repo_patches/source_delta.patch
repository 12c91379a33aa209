From 59b825d96afdb196120884feda99286636671136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:52 +0000
Subject: [PATCH 01/19] fix: reserve room for the whole value in
 Client::reg_write

---
 src/instructions/reg_write.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instructions/reg_write.rs b/src/instructions/reg_write.rs
index f6c4b09..97faa70 100644
--- a/src/instructions/reg_write.rs
+++ b/src/instructions/reg_write.rs
@@ -36,7 +36,7 @@ where
 	/// You may specify [`crate::instructions::packet_id::BROADCAST`] as motor ID.
 	/// If you do, none of the devices will reply with a response, and this function will not wait for any.
 	pub fn reg_write<T: Data>(&mut self, motor_id: u8, address: u16, value: &T) -> Result<Response<()>, TransferError<SerialPort::Error>> {
-		self.write_instruction(motor_id, instruction_id::REG_WRITE, 2 + 1, |buffer| {
+		self.write_instruction(motor_id, instruction_id::REG_WRITE, 2 + usize::from(T::ENCODED_SIZE), |buffer| {
 			write_u16_le(&mut buffer[0..], address);
 			value.encode(&mut buffer[2..])
 		})?;
-- 
2.43.0


From 056b4d996283710cd55e3b769eabd33e58cfa1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:52 +0000
Subject: [PATCH 02/19] fix: use the encoded size of the value type in
 Client::sync_write

---
 src/instructions/sync_write.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instructions/sync_write.rs b/src/instructions/sync_write.rs
index 6fe40c2..8f6a967 100644
--- a/src/instructions/sync_write.rs
+++ b/src/instructions/sync_write.rs
@@ -80,7 +80,7 @@ where
 		T: crate::bus::Data,
 	{
 		let data = data.into_iter();
-		let count = core::mem::size_of::<u8>();
+		let count = usize::from(T::ENCODED_SIZE);
 		let motors = data.len();
 		let stride = 1 + count;
 		let parameter_count = 4 + motors * stride;
-- 
2.43.0


From a8bb4e62206f14ac3dfbc3f176b060910255feb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:52 +0000
Subject: [PATCH 03/19] fix: send the right sub-command to clear the error
 state of a motor

---
 src/instructions/clear.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instructions/clear.rs b/src/instructions/clear.rs
index 05201fe..fb22ca1 100644
--- a/src/instructions/clear.rs
+++ b/src/instructions/clear.rs
@@ -7,7 +7,7 @@ const CLEAR_REVOLUTION_COUNT: [u8; 5] = [0x01, 0x44, 0x58, 0x4C, 0x22];
 /// The parameters for the CLEAR command to clear the error state.
 ///
 /// This is only supported on some motors.
-const CLEAR_ERROR: [u8; 5] = [0x01, 0x45, 0x52, 0x43, 0x4C];
+const CLEAR_ERROR: [u8; 5] = [0x02, 0x45, 0x52, 0x43, 0x4C];
 
 impl<SerialPort, Buffer> Client<SerialPort, Buffer>
 where
-- 
2.43.0


From b7f6e4f117b9efb0c7538907b9ce12d59b3e5c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:52 +0000
Subject: [PATCH 04/19] fix: reject status packets without an error field
 instead of panicking

---
 src/bus/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bus/mod.rs b/src/bus/mod.rs
index 19eec2b..2d8f3a9 100644
--- a/src/bus/mod.rs
+++ b/src/bus/mod.rs
@@ -286,8 +286,8 @@ where
 		let data = &self.read_buffer.as_ref()[..HEADER_SIZE + parameter_count];
 		let packet = packet::Packet { data };
 
-		// Ensure that status packets have an error field (included in parameter_count here).
-		if packet.instruction_id() == crate::instructions::instruction_id::STATUS && parameter_count < 1 {
+		// Ensure that status packets have an error field (the instruction ID and error field are included in parameter_count here).
+		if packet.instruction_id() == crate::instructions::instruction_id::STATUS && parameter_count < 2 {
 			return Err(crate::InvalidMessage::InvalidParameterCount(crate::InvalidParameterCount {
 				actual: 0,
 				expected: crate::ExpectedCount::Min(1),
-- 
2.43.0


From e6167b8a5edc3e8e17bad064018c8986a9d1a04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:26 +0000
Subject: [PATCH 05/19] fix: recognize the stuffing pattern after more than two
 0xFF bytes

---
 src/bus/bytestuff.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/bus/bytestuff.rs b/src/bus/bytestuff.rs
index 3033ff3..ff26bce 100644
--- a/src/bus/bytestuff.rs
+++ b/src/bus/bytestuff.rs
@@ -7,6 +7,20 @@ use crate::error::BufferTooSmallError;
 /// The unstuffed pattern is this with the last byte removed.
 pub const PATTERN: [u8; 4] = [0xFF, 0xFF, 0xFD, 0xFD];
 
+/// Get the number of bytes of [`PATTERN`] that are matched after seeing one more byte.
+fn advance(matched: usize, byte: u8) -> usize {
+	if byte == PATTERN[matched] {
+		matched + 1
+	} else if byte != PATTERN[0] {
+		0
+	} else if matched == 2 {
+		// Any number of 0xFF bytes still ends with the two that start the pattern.
+		2
+	} else {
+		1
+	}
+}
+
 /// Remove bit-stuffing in-place.
 ///
 /// All patterns of `[0xFF, 0xFF, 0xFD, 0xFD]` will be replaced with `[0xFF, 0xFF, 0xFD]`.
@@ -16,11 +30,7 @@ pub fn unstuff_inplace(data: &mut [u8]) -> usize {
 	let mut state = 0;
 
 	for i in 0..data.len() {
-		if data[i] == PATTERN[state] {
-			state += 1;
-		} else {
-			state = 0;
-		}
+		state = advance(state, data[i]);
 		if state == 4 {
 			state = 0;
 			deleted += 1;
@@ -37,11 +47,7 @@ pub fn stuffing_required(data: &[u8]) -> usize {
 	let mut state = 0;
 	let mut count = 0;
 	for &byte in data {
-		if byte == PATTERN[state] {
-			state += 1;
-		} else {
-			state = 0;
-		}
+		state = advance(state, byte);
 		if state == PATTERN.len() - 1 {
 			state = 0;
 			count += 1;
-- 
2.43.0


From 388c1496104462c2b8fe1ea80449c6ef68a4fc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:26 +0000
Subject: [PATCH 06/19] fix: leave room for the checksum when stuffing a
 message

---
 src/bus/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bus/mod.rs b/src/bus/mod.rs
index 2d8f3a9..1c563dc 100644
--- a/src/bus/mod.rs
+++ b/src/bus/mod.rs
@@ -205,7 +205,9 @@ where
 		// Perform bitstuffing on the body.
 		// The header never needs stuffing.
 		// However, strictly following the spec, the instruction ID might need stuffing.
-		let stuffed_body_len = bytestuff::stuff_inplace(&mut buffer[HEADER_SIZE..], 1 + parameter_count)?;
+		// Leave room for the checksum at the end of the buffer.
+		let body_end = buffer.len() - 2;
+		let stuffed_body_len = bytestuff::stuff_inplace(&mut buffer[HEADER_SIZE..body_end], 1 + parameter_count)?;
 
 		endian::write_u16_le(&mut buffer[5..], stuffed_body_len as u16 + 2);
 
-- 
2.43.0


From 1ca692818b70c3ba9fcc82f98b1376fc56bf2a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:26 +0000
Subject: [PATCH 07/19] fix: refuse to send messages that do not fit in the
 length field

---
 src/bus/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bus/mod.rs b/src/bus/mod.rs
index 1c563dc..dcdfffd 100644
--- a/src/bus/mod.rs
+++ b/src/bus/mod.rs
@@ -190,7 +190,9 @@ where
 	where
 		F: FnOnce(&mut [u8]) -> Result<(), crate::error::BufferTooSmallError>,
 	{
-		let buffer = self.write_buffer.as_mut();
+		// The size of a message is limited by the 16 bits length field as well as by the write buffer.
+		let max_len = self.write_buffer.as_ref().len().min(HEADER_SIZE + usize::from(u16::MAX));
+		let buffer = &mut self.write_buffer.as_mut()[..max_len];
 
 		// Check if the buffer can hold the unstuffed message.
 		crate::error::BufferTooSmallError::check(InstructionPacket::message_len(parameter_count), buffer.len())?;
-- 
2.43.0


From 771e9ff581a8f162e82b649c448f7c2ddeaa0356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:26 +0000
Subject: [PATCH 08/19] fix: reject packets with a too small length field
 instead of panicking

---
 src/bus/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/bus/mod.rs b/src/bus/mod.rs
index dcdfffd..cdbcc3f 100644
--- a/src/bus/mod.rs
+++ b/src/bus/mod.rs
@@ -246,6 +246,16 @@ where
 				let read_buffer = &self.read_buffer.as_mut()[..self.read_len];
 				let body_len = endian::read_u16_le(&read_buffer[5..]) as usize;
 
+				// The body holds at least an instruction ID and the checksum.
+				if body_len < 3 {
+					self.consume_read_bytes(HEADER_SIZE);
+					return Err(crate::InvalidMessage::InvalidParameterCount(crate::InvalidParameterCount {
+						actual: 0,
+						expected: crate::ExpectedCount::Min(1),
+					})
+					.into());
+				}
+
 				// Check if the read buffer is large enough for the entire message.
 				crate::error::BufferTooSmallError::check(HEADER_SIZE + body_len, self.read_buffer.as_mut().len()).inspect_err(|_| {
 					self.consume_read_bytes(HEADER_SIZE);
-- 
2.43.0


From 77420e4d7f9bdde6bb6ba05a7de41fd5a73c2775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:26 +0000
Subject: [PATCH 09/19] fix: panic on duplicate motor IDs in Client::bulk_write
 as documented

---
 src/instructions/bulk_write.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/instructions/bulk_write.rs b/src/instructions/bulk_write.rs
index f3bec14..54f77cf 100644
--- a/src/instructions/bulk_write.rs
+++ b/src/instructions/bulk_write.rs
@@ -56,8 +56,13 @@ where
 
 		let writes = writes.into_iter();
 		let mut parameter_count = 0;
-		for write in writes.clone() {
+		for (i, write) in writes.clone().enumerate() {
 			let write = write.borrow();
+			for (j, other) in writes.clone().enumerate().skip(i + 1) {
+				if write.motor_id == other.borrow().motor_id {
+					panic!("bulk_write: motor ID {} used multiple times at index {} and {}", write.motor_id, i, j);
+				}
+			}
 			let data = write.data.as_ref();
 			if data.len() > u16::MAX.into() {
 				panic!(
-- 
2.43.0


From 0faf60e9fe0e48afddfcdafd3f16ce52979611ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:26 +0000
Subject: [PATCH 10/19] fix: keep bulk writes as bulk writes in
 Device::read_owned

---
 src/device.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/device.rs b/src/device.rs
index 19f18d3..a18d8e5 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -373,7 +373,7 @@ impl<'a> TryFrom<InstructionPacket<'a>> for Instruction<alloc::vec::Vec<u8>> {
 			Instructions::BulkRead { parameters } => Instructions::BulkRead {
 				parameters: parameters.to_owned(),
 			},
-			Instructions::BulkWrite { parameters } => Instructions::BulkRead {
+			Instructions::BulkWrite { parameters } => Instructions::BulkWrite {
 				parameters: parameters.to_owned(),
 			},
 			Instructions::Unknown { instruction, parameters } => Instructions::Unknown {
-- 
2.43.0


From 7c489f7cea925c92394df13f094d9e3ca8219557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:26 +0000
Subject: [PATCH 11/19] fix: check which motor a response without data came
 from

---
 src/instructions/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/instructions/mod.rs b/src/instructions/mod.rs
index cd1d4cd..dd7bc8c 100644
--- a/src/instructions/mod.rs
+++ b/src/instructions/mod.rs
@@ -118,6 +118,8 @@ where
 			data: (),
 		})
 	} else {
-		Ok(client.read_status_response(0)?.try_into()?)
+		let response = client.read_status_response(0)?;
+		crate::InvalidPacketId::check(response.packet_id(), motor_id)?;
+		Ok(response.try_into()?)
 	}
 }
-- 
2.43.0


From bfe2029cf72a93f0a321b65b71e44db75dbfa9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:26 +0000
Subject: [PATCH 12/19] fix: end a scan when reading from the serial port keeps
 failing

---
 src/instructions/ping.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/instructions/ping.rs b/src/instructions/ping.rs
index 106db49..67b34ae 100644
--- a/src/instructions/ping.rs
+++ b/src/instructions/ping.rs
@@ -1,7 +1,7 @@
 use core::time::Duration;
 
 use super::{instruction_id, packet_id};
-use crate::bus::StatusPacket;
+use crate::bus::{InstructionPacket, StatusPacket};
 use crate::{Client, ReadError, Response, TransferError};
 
 /// A response from a motor to a ping instruction.
@@ -50,7 +50,7 @@ where
 	/// Scan the bus for motors with a broadcast ping
 	pub fn scan(&mut self) -> Result<Scan<SerialPort, Buffer>, crate::WriteError<SerialPort::Error>> {
 		self.write_instruction(packet_id::BROADCAST, instruction_id::PING, 0, |_| Ok(()))?;
-		Ok(Scan { client: self })
+		Ok(Scan { client: self, done: false })
 	}
 }
 
@@ -63,6 +63,7 @@ macro_rules! make_scan_struct {
 			Buffer: AsRef<[u8]> + AsMut<[u8]>,
 		{
 			client: &'a mut Client<SerialPort, Buffer>,
+			done: bool,
 		}
 	}
 }
@@ -88,8 +89,20 @@ where
 	Buffer: AsRef<[u8]> + AsMut<[u8]>,
 {
 	/// Scan for the next motor reply
+	///
+	/// Returns `None` once no more replies arrive.
+	/// If reading from the serial port fails, or if the read buffer is too small to read any message,
+	/// the error is returned once and the scan ends.
 	pub fn scan_next(&mut self) -> Option<Result<Response<Ping>, crate::ReadError<SerialPort::Error>>> {
+		if self.done {
+			return None;
+		}
 		let response = self.next_response();
+		self.done = match &response {
+			Err(ReadError::Io(_)) => true,
+			Err(ReadError::BufferFull(e)) => e.total_size < InstructionPacket::message_len(0),
+			_ => false,
+		};
 		match response {
 			Ok(response) => Some(Ok(response)),
 			Err(ReadError::Io(e)) if SerialPort::is_timeout_error(&e) => {
-- 
2.43.0


From 2af07f4758e1ffc15eb2f5ee0cf27a8ddd04427f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:24 +0000
Subject: [PATCH 13/19] fix: do not drop array elements twice when decoding an
 array

ArrayInitializer::finish() moved the elements out and then dropped them
again, which is undefined behaviour for element types with drop glue.
---
 src/bus/data.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bus/data.rs b/src/bus/data.rs
index 4875a70..cea5af2 100644
--- a/src/bus/data.rs
+++ b/src/bus/data.rs
@@ -1,6 +1,6 @@
 use crate::bus::StatusPacket;
 use crate::Response;
-use core::mem::MaybeUninit;
+use core::mem::{ManuallyDrop, MaybeUninit};
 
 /// A fixed-size type that can be read or written over the bus.
 pub trait Data: Sized {
@@ -141,9 +141,11 @@ impl<T: Sized, const N: usize> ArrayInitializer<T, N> {
 	/// You must ensure you called `push()` exactly `N` times before calling this function.
 	pub unsafe fn finish(self) -> [T; N] {
 		debug_assert!(self.initialized == N);
+		// The elements are moved out, so they must not be dropped by `self` too.
+		let this = ManuallyDrop::new(self);
 		// SAFETY: The caller must guarantee that `self.data` is fully initialized,
 		// if they did, reading it as `[T; N]` is sound.
-		core::ptr::read(self.data.as_ptr().cast())
+		unsafe { core::ptr::read(this.data.as_ptr().cast()) }
 	}
 }
 
-- 
2.43.0


From 27eba1843e41b641aefddb12c7d53ad51554a2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:13 +0000
Subject: [PATCH 14/19] fix: keep waiting for data when a signal interrupts a
 read

---
 src/serial_port/serial2.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/serial_port/serial2.rs b/src/serial_port/serial2.rs
index 534e740..4da402f 100644
--- a/src/serial_port/serial2.rs
+++ b/src/serial_port/serial2.rs
@@ -22,11 +22,17 @@ impl crate::SerialPort for serial2::SerialPort {
 	}
 
 	fn read(&mut self, buffer: &mut [u8], deadline: &Self::Instant) -> Result<usize, Self::Error> {
-		let timeout = deadline
-			.checked_duration_since(Instant::now())
-			.ok_or(std::io::ErrorKind::TimedOut)?;
-		self.set_read_timeout(timeout)?;
-		serial2::SerialPort::read(self, buffer)
+		loop {
+			let timeout = deadline
+				.checked_duration_since(Instant::now())
+				.ok_or(std::io::ErrorKind::TimedOut)?;
+			self.set_read_timeout(timeout)?;
+			match serial2::SerialPort::read(self, buffer) {
+				// A signal interrupted the wait: wait for the rest of the time.
+				Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
+				result => return result,
+			}
+		}
 	}
 
 	fn write_all(&mut self, buffer: &[u8]) -> Result<(), Self::Error> {
-- 
2.43.0


From 9efe05ed65008514ceaef836b0092fea905d42a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:24 +0000
Subject: [PATCH 15/19] fix: do not wait forever for a read with a very long
 timeout

---
 src/serial_port/serial2.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/serial_port/serial2.rs b/src/serial_port/serial2.rs
index 4da402f..e209b0f 100644
--- a/src/serial_port/serial2.rs
+++ b/src/serial_port/serial2.rs
@@ -2,6 +2,11 @@
 
 use std::time::{Duration, Instant};
 
+/// The longest timeout that the operating system can wait for in one go.
+///
+/// Longer ones do not fit in the `int` that `poll()` takes, which then waits forever.
+const MAX_READ_TIMEOUT: Duration = Duration::from_millis(i32::MAX as u64);
+
 impl crate::SerialPort for serial2::SerialPort {
 	type Error = std::io::Error;
 	type Instant = std::time::Instant;
@@ -26,10 +31,12 @@ impl crate::SerialPort for serial2::SerialPort {
 			let timeout = deadline
 				.checked_duration_since(Instant::now())
 				.ok_or(std::io::ErrorKind::TimedOut)?;
-			self.set_read_timeout(timeout)?;
+			self.set_read_timeout(timeout.min(MAX_READ_TIMEOUT))?;
 			match serial2::SerialPort::read(self, buffer) {
 				// A signal interrupted the wait: wait for the rest of the time.
 				Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
+				// Only a part of a very long timeout is over.
+				Err(e) if e.kind() == std::io::ErrorKind::TimedOut && timeout > MAX_READ_TIMEOUT => continue,
 				result => return result,
 			}
 		}
-- 
2.43.0


From 2696edcb84b39c560ae7ab8b5f2ec02d101823f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:33 +0000
Subject: [PATCH 16/19] fix: refuse a baud rate of zero on the command line

The tool panicked with a division by zero as soon as it waited for a reply.
---
 dynamixel2-cli/src/bin/dynamixel2/options.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dynamixel2-cli/src/bin/dynamixel2/options.rs b/dynamixel2-cli/src/bin/dynamixel2/options.rs
index 54226e8..bf6b311 100644
--- a/dynamixel2-cli/src/bin/dynamixel2/options.rs
+++ b/dynamixel2-cli/src/bin/dynamixel2/options.rs
@@ -23,6 +23,7 @@ pub struct Options {
 	#[clap(long, short)]
 	#[clap(global = true)]
 	#[clap(default_value = "57600")]
+	#[clap(value_parser = clap::value_parser!(u32).range(1..))]
 	pub baud_rate: u32,
 
 	#[clap(subcommand)]
-- 
2.43.0


From 8d74f75cc4dbba2298bc3e1804d0664dd4c50981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:20 +0000
Subject: [PATCH 17/19] fix: report absurd parameter counts as a too small
 buffer

The size of a message overflowed for parameter counts close to usize::MAX,
which made write_instruction(), transfer_single() and write_status() panic
instead of returning a BufferTooSmallError.
---
 src/bus/packet.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bus/packet.rs b/src/bus/packet.rs
index 63df41a..176e52d 100644
--- a/src/bus/packet.rs
+++ b/src/bus/packet.rs
@@ -86,7 +86,7 @@ impl<'a> StatusPacket<'a> {
 
 	/// Calculate the size of a (unstuffed) status message with the given number of parameters.
 	pub(crate) const fn message_len(parameters: usize) -> usize {
-		super::HEADER_SIZE + 2 + parameters + 2
+		parameters.saturating_add(super::HEADER_SIZE + 2 + 2)
 	}
 }
 
@@ -116,7 +116,7 @@ impl<'a> InstructionPacket<'a> {
 
 	/// Calculate the size of a (unstuffed) instruction message with the given number of parameters.
 	pub(crate) const fn message_len(parameters: usize) -> usize {
-		super::HEADER_SIZE + 1 + parameters + 2
+		parameters.saturating_add(super::HEADER_SIZE + 1 + 2)
 	}
 }
 
-- 
2.43.0


From 0d05b017c283c49db56f5e7b23fb51e20a376a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:20 +0000
Subject: [PATCH 18/19] fix: do not panic for timeouts that do not fit in an
 Instant

A timeout such as Duration::MAX made every read on a serial2 port panic with
an overflow when the deadline was computed.
---
 src/serial_port/serial2.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/serial_port/serial2.rs b/src/serial_port/serial2.rs
index e209b0f..955730a 100644
--- a/src/serial_port/serial2.rs
+++ b/src/serial_port/serial2.rs
@@ -7,6 +7,11 @@ use std::time::{Duration, Instant};
 /// Longer ones do not fit in the `int` that `poll()` takes, which then waits forever.
 const MAX_READ_TIMEOUT: Duration = Duration::from_millis(i32::MAX as u64);
 
+/// The timeout to use instead of one that can not be represented as a deadline: roughly 30 years.
+///
+/// This is small enough to not overflow an `Instant` on any platform.
+const FAR_FUTURE: Duration = Duration::from_secs(30 * 365 * 24 * 60 * 60);
+
 impl crate::SerialPort for serial2::SerialPort {
 	type Error = std::io::Error;
 	type Instant = std::time::Instant;
@@ -47,7 +52,9 @@ impl crate::SerialPort for serial2::SerialPort {
 	}
 
 	fn make_deadline(&self, timeout: Duration) -> Self::Instant {
-		Instant::now() + timeout
+		let now = Instant::now();
+		// A timeout that is too long for an `Instant` is as good as forever.
+		now.checked_add(timeout).unwrap_or_else(|| now + FAR_FUTURE)
 	}
 
 	fn is_timeout_error(error: &Self::Error) -> bool {
-- 
2.43.0


From 978d11220a31ca3c3c3b055408d9f0d618d91cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:14 +0000
Subject: [PATCH 19/19] fix: do not divide by a baud rate of zero

A serial port that reports or accepts a baud rate of 0 (which stands for a line
that is hung up) made every read of a reply panic.
---
 src/bus/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bus/mod.rs b/src/bus/mod.rs
index cdbcc3f..a93d6c9 100644
--- a/src/bus/mod.rs
+++ b/src/bus/mod.rs
@@ -355,7 +355,8 @@ fn find_header(buffer: &[u8]) -> usize {
 ///
 /// The size must include any headers and footers of the message.
 pub(crate) fn message_transfer_time(message_size: u32, baud_rate: u32) -> Duration {
-	let baud_rate = u64::from(baud_rate);
+	// A line that is hung up has a baud rate of 0: nothing is ever transferred, but it must not make us divide by zero.
+	let baud_rate = u64::from(baud_rate.max(1));
 	let bits = u64::from(message_size) * 10; // each byte is 1 start bit, 8 data bits and 1 stop bit.
 	let secs = bits / baud_rate;
 	let subsec_bits = bits % baud_rate;
-- 
2.43.0

