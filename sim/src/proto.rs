//! Independent reference implementation of the Protocol 2.0 wire format, written from the specification.
//! Shares no code with the crate under test.

pub const HDR: [u8; 4] = [0xFF, 0xFF, 0xFD, 0x00];
pub const BROADCAST: u8 = 0xFE;
pub const STATUS: u8 = 0x55;

pub mod ins {
	pub const PING: u8 = 0x01;
	pub const READ: u8 = 0x02;
	pub const WRITE: u8 = 0x03;
	pub const REG_WRITE: u8 = 0x04;
	pub const ACTION: u8 = 0x05;
	pub const FACTORY_RESET: u8 = 0x06;
	pub const REBOOT: u8 = 0x08;
	pub const CLEAR: u8 = 0x10;
	pub const SYNC_READ: u8 = 0x82;
	pub const SYNC_WRITE: u8 = 0x83;
	pub const BULK_READ: u8 = 0x92;
	pub const BULK_WRITE: u8 = 0x93;
}

/// CRC-16, polynomial 0x8005, initial value 0, not reflected: bit by bit.
pub fn crc(data: &[u8]) -> u16 {
	let mut c = 0u16;
	for &b in data {
		c ^= u16::from(b) << 8;
		for _ in 0..8 {
			c = if c & 0x8000 != 0 { (c << 1) ^ 0x8005 } else { c << 1 };
		}
	}
	c
}

/// Insert 0xFD after every FF FF FD of the body.
pub fn stuff(body: &[u8]) -> Vec<u8> {
	let mut out = Vec::with_capacity(body.len() + body.len() / 3 + 1);
	// `run` is the number of 0xFF bytes directly before the current position in the output.
	let mut run = 0usize;
	for &b in body {
		out.push(b);
		if b == 0xFD && run >= 2 {
			out.push(0xFD);
			run = 0;
		} else if b == 0xFF {
			run += 1;
		} else {
			run = 0;
		}
	}
	out
}

/// Remove the 0xFD that follows every FF FF FD.
pub fn unstuff(body: &[u8]) -> Vec<u8> {
	let mut out = Vec::with_capacity(body.len());
	let mut run = 0usize;
	let mut i = 0;
	while i < body.len() {
		let b = body[i];
		out.push(b);
		if b == 0xFD && run >= 2 && body.get(i + 1) == Some(&0xFD) {
			i += 1;
			run = 0;
		} else if b == 0xFF {
			run += 1;
		} else {
			run = 0;
		}
		i += 1;
	}
	out
}

/// Is there an unstuffed header prefix (FF FF FD not followed by FD) in these wire bytes?
pub fn has_bare_pattern(wire_body: &[u8]) -> bool {
	wire_body.windows(3).enumerate().any(|(i, w)| w == [0xFF, 0xFF, 0xFD] && wire_body.get(i + 3) != Some(&0xFD))
}

/// Length of the encoded packet, without building it.
pub fn encoded_len(instr: u8, params: &[u8]) -> usize {
	let mut run = 0usize;
	let mut n = 0;
	for &b in std::iter::once(&instr).chain(params) {
		n += 1;
		if b == 0xFD && run >= 2 {
			n += 1;
			run = 0;
		} else if b == 0xFF {
			run += 1;
		} else {
			run = 0;
		}
	}
	7 + n + 2
}

/// Encode an instruction packet (for a status packet, pass STATUS and params starting with the error byte).
/// The length field is truncated to 16 bits if the body is too large: callers must check.
pub fn encode(id: u8, instr: u8, params: &[u8]) -> Vec<u8> {
	let mut body = Vec::with_capacity(params.len() + 1);
	body.push(instr);
	body.extend_from_slice(params);
	encode_raw_body(id, &stuff(&body))
}

/// Frame an already stuffed body (also used for malformed packets with a valid CRC).
pub fn encode_raw_body(id: u8, body: &[u8]) -> Vec<u8> {
	let mut out = Vec::with_capacity(body.len() + 9);
	out.extend_from_slice(&HDR);
	out.push(id);
	let len = (body.len() + 2) as u16;
	out.extend_from_slice(&len.to_le_bytes());
	out.extend_from_slice(body);
	let c = crc(&out);
	out.extend_from_slice(&c.to_le_bytes());
	out
}

pub fn status(id: u8, err: u8, params: &[u8]) -> Vec<u8> {
	let mut p = Vec::with_capacity(params.len() + 1);
	p.push(err);
	p.extend_from_slice(params);
	encode(id, STATUS, &p)
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Pkt {
	pub id: u8,
	pub instr: u8,
	/// Unstuffed parameters (for a status: without the error byte).
	pub params: Vec<u8>,
	/// Error byte of a status packet.
	pub err: u8,
	/// Offset of the packet in the scanned bytes and its length there.
	pub start: usize,
	pub len: usize,
}

impl Pkt {
	pub fn is_status(&self) -> bool {
		self.instr == STATUS
	}
}

/// Decode the packet that starts exactly at `data[start..]`, if there is an intact one.
pub fn decode_at(data: &[u8], start: usize) -> Option<Pkt> {
	let d = &data[start..];
	if d.len() < 10 || d[..4] != HDR {
		return None;
	}
	let len = usize::from(u16::from_le_bytes([d[5], d[6]]));
	if len < 3 || d.len() < 7 + len {
		return None;
	}
	let end = 7 + len;
	if crc(&d[..end - 2]) != u16::from_le_bytes([d[end - 2], d[end - 1]]) {
		return None;
	}
	let body = unstuff(&d[7..end - 2]);
	let instr = body[0];
	let (err, params) = if instr == STATUS {
		if body.len() < 2 {
			return None;
		}
		(body[1], body[2..].to_vec())
	} else {
		(0, body[1..].to_vec())
	};
	Some(Pkt { id: d[4], instr, params, err, start, len: end })
}

/// Every intact packet at any offset of the bytes (also overlapping ones).
pub fn scan_all(data: &[u8]) -> Vec<Pkt> {
	let mut out = vec![];
	if data.len() < 10 {
		return out;
	}
	for i in 0..=data.len() - 10 {
		if data[i] == 0xFF && data[i + 1] == 0xFF && data[i + 2] == 0xFD && data[i + 3] == 0 {
			if let Some(p) = decode_at(data, i) {
				out.push(p);
			}
		}
	}
	out
}

/// Time to transfer `n` bytes of 10 bits each, in ns, rounded up.
pub fn transfer_ns(n: u64, baud: u32) -> u64 {
	let bits = u128::from(n) * 10 * 1_000_000_000;
	bits.div_ceil(u128::from(baud)) as u64
}

pub const MS: u64 = 1_000_000;

/// Documented response timeout for a status reply with `n` parameters.
pub fn reply_window(n: u64, baud: u32) -> u64 {
	transfer_ns(11 + n, baud) + 34 * MS
}

pub fn hex(b: &[u8]) -> String {
	let mut s = String::with_capacity(b.len() * 3);
	for (i, x) in b.iter().enumerate() {
		if i == 48 && b.len() > 56 {
			s.push_str(&format!(" ..({} bytes)", b.len()));
			break;
		}
		if i > 0 {
			s.push(' ');
		}
		s.push_str(&format!("{x:02X}"));
	}
	s
}
