//! What each check claims about its batch: how runs are made, what counts, what is assumed.

use crate::runner::Meta;

const REAL: &str = "dynamixel2 (Client, Device, Bus, framing, byte stuffing, CRC, codecs, iterators) with default features, built from /repo's working tree";
const BUS: &str = "serial port (the crate's SerialPort trait), clock and timers, line, motors (independent register-table motors; in some runs a motor whose packets are read and written by the crate's own Device)";
const PORT: &str = "serial port (the crate's SerialPort trait), clock and timers, and the bytes on the line, made by an independent encoder";

const A_SEAM: &str = "Everything nondeterministic reaches the library through the SerialPort trait, which the simulator implements; one seed decides every choice behind it.";
const A_SAMPLE: &str = "A seeded sample of histories, not all of them: a violation that needs a rarer coincidence than the batch contains is missed.";
const A_MODEL: &str = "The reference encoder, framer and motor model in /verif/sim are right about the DYNAMIXEL Protocol 2.0.";

const ASS: &[&str] = &[A_SEAM, A_SAMPLE, A_MODEL];

macro_rules! count_rule {
	($s:literal) => {
		concat!(
			$s,
			" One run is one seed; it is counted as distinct and non-trivial if it executed at least one operation of the library and one simulated event, and no other run of the batch had the same timed trace of events, port calls, bytes and results."
		)
	};
}

pub fn all() -> Vec<Meta> {
	let m = |prop, rule, stub, require| Meta { prop, rule, real: REAL, stub, assumptions: ASS, require };
	vec![
		m(
			"C01",
			count_rule!("Random histories of all client operations and device statuses with random IDs, addresses, data (rich in FF FF FD) and buffer sizes (around the exact fit, and around 64 KiB), on a port whose discards, writes and reads fail at random; each packet handed to the port is compared byte for byte with an independent encoder."),
			BUS,
			&["sent a packet that needs stuffing", "packet fills the write buffer exactly", "packet one byte larger than the write buffer", "sent a packet close to 64 KiB", "port write error", "partial port write", "port discard error", "buffer too small", "value encoder failure"][..],
		),
		m(
			"C02",
			count_rule!("Random histories of unicast operations against 1 to 4 motors on a bus with random fragmentation, reply delays inside the response window, stale bytes before each instruction, baud rates and buffer sizes; every result and every motor register is compared with a shadow register model after every operation."),
			BUS,
			&["read returned data", "read of nothing", "read of data that needs stuffing", "large transfer", "long history", "more operations than 16 bits count", "fragmented delivery", "delayed delivery", "stale bytes in port buffer"],
		),
		m(
			"C03",
			count_rule!("Random histories in which bytes of instructions and replies are flipped, lost, duplicated, inserted, truncated and delayed (separately also only in header, length or CRC), with noise, port errors and empty reads; each success or motor status must be justified by an intact packet with that content, found by an independent scan of the bytes the port handed over."),
			BUS,
			&["bit flip", "byte loss", "byte duplication", "byte insertion", "truncation", "crc damage", "header damage", "length damage", "line noise", "input buffer overrun", "device delivered an instruction", "device reported a checksum error"],
		),
		m(
			"C04",
			count_rule!("Random histories with stale, late, duplicated, foreign, wrong-length and non-status packets before, between and after the expected replies; each success must rest on a status packet that arrived after the instruction was sent, from the addressed motor, with the expected amount of data, and no packet may serve two results."),
			BUS,
			&["reply lost", "reply duplicated", "reply late", "reply from foreign id", "reply with wrong length", "reply is no status packet", "echo of the instruction", "stale bytes in port buffer", "input buffer overrun", "long history"],
		),
		m(
			"C05",
			count_rule!("Random byte streams (packets that fit or do not, noise, damaged packets) delivered 2 to 4 times with different fragmentation, pauses, empty reads and reader timeouts, to the client or to a device in one of its three forms; the sequences of packets and errors must be equal, and for streams of known content equal to what an independent framer expects."),
			PORT,
			&["stream with known content", "several items in one stream", "good packet right after a checksum error", "fragmented delivery", "empty read"],
		),
		m(
			"C06",
			count_rule!("Random histories with adversarial packets, noise, port errors, empty reads, dead ports, ports without a baud rate (0) and read buffers from 0 bytes up; every call must return in time without panicking (overflow checks and debug assertions are on); a call that asks the port 3000 times without progress, or a run that computes for 30 s, is a hang."),
			BUS,
			&["line noise", "input buffer overrun", "long history", "port read error", "empty read", "dead port", "port write error", "port discard error", "read timeout", "client or iterator shown", "baud rate of 0"],
		),
		m(
			"C07",
			count_rule!("Random baud rates (changes that succeed and that fail), operations and expected sizes, with replies completing just before, just after or never relative to the computed deadline, in pieces and among noise; the simulated time at which each call ends is compared with the window computed independently."),
			PORT,
			&["reply just in time", "reply just too late", "exact timeout", "timeout in spite of noise", "port handed over", "scan window", "windows of a multi read", "windows of an abandoned multi read", "baud rate changed", "baud rate change failed", "exact device timeout", "instruction just in time"],
		),
		m(
			"C08",
			count_rule!("Random sync reads, bulk reads and scans over random motor sets, with single replies spoiled (motor error, bad checksum, wrong length), abandoned at random points, followed by further operations; results, order, remaining counts and the next operation are compared with the register model."),
			BUS,
			&["item spoiled by its own reply", "good item right after a spoiled one", "iteration abandoned", "port handed over", "more than 200 results", "large replies", "abandoned with a silent motor before one that answers", "operation right after a read with silent motors"],
		),
		m(
			"C09",
			count_rule!("Random sync and bulk writes over all value types, lengths and lists, with buffers around the exact fit, failing discards, and misuse (wrong lengths, duplicate IDs); all registers of all motors are compared with the register model, and a failed call must have put nothing on the wire."),
			BUS,
			&["buffer too small", "port discard error", "caller misuse panic", "write to many motors", "large multi-motor write"],
		),
		m(
			"C10",
			count_rule!("Random broadcast instructions through their own calls or the broadcast ID, on a port with bytes arriving at random; exactly one packet, no read call, no time beyond the transmission, all motors executed it."),
			BUS,
			&["stale bytes in port buffer"],
		),
		m(
			"C11",
			count_rule!("Random streams of instructions (all kinds, unknown and malformed ones) and status packets of other motors, from an independent encoder and from the real client, fragmented in time and read with random timeouts in borrowed, owned and raw form; each must be delivered once, in order, with the meaning the protocol gives it."),
			PORT,
			&["malformed instruction reported", "unknown instruction delivered", "multi-motor instruction delivered", "instruction delivered", "device answered in between", "instruction of the client", "fragmented delivery", "empty read"],
		),
		m(
			"C12",
			count_rule!("Random phases of line, motor and port faults, each followed by calm: a client must then work exactly like the register model, a device must deliver every instruction that starts after one read buffer of clean traffic."),
			BUS,
			&["operation after recovery", "port handed over", "device recovered", "traffic lost to garbage", "dead port", "port read error", "set baud rate error"],
		),
		m(
			"C13",
			count_rule!("Random histories of all operations on a port whose calls fail at random, each with its own number; the log of port calls is compared with the result of each call: at most one transmission, exactly one if it succeeded, and the very error that the port returned, in the right category."),
			BUS,
			&["port write error", "partial port write", "port discard error", "port read error", "set baud rate error"],
		),
		m(
			"C14",
			count_rule!("Random typed reads and multi reads of 23 instrumented value types (structures, nested and empty arrays, values without bytes), with decoders failing or panicking at a random element, spoiled replies and abandoned iterations; a register of births and deaths is checked after every result."),
			PORT,
			&["decoding failed at some element", "abandoned multi read", "complete multi read", "single read", "value decoder failure", "large value", "values of more than 200 motors"],
		),
		Meta {
			prop: "C15",
			rule: count_rule!("Random histories of direct use, of client and device operations, and of opening and configuring ports, through the real serial2 adapter on simulated system calls: poll, read, write, ioctl, tcflush, open and the clock are short, interrupted, late, refused or fail at random while bytes arrive at random times; each call of the adapter is compared with what the simulated kernel knows (what was readable when, what was taken, which calls failed how, the line settings in effect)."),
			real: "dynamixel2 with the serial2 adapter, the serial2 crate and the standard library above the C library, built from /repo's working tree",
			stub: "the C library's system calls on the terminal and the clock (simulated kernel, terminal, line and motors)",
			assumptions: ASS,
			require: &["EINTR", "EAGAIN", "short write", "system call error", "hang-up", "process not scheduled", "fragmented delivery", "very long deadline", "deadline already over", "read returned data", "read timed out", "read failed", "port opened", "opening failed", "baud rate changed", "baud rate change failed", "exact timeout", "operation after recovery", "instruction delivered"],
		},
		Meta {
			prop: "C16",
			rule: count_rule!("Random command lines (all commands, spellings of IDs and options, invalid ones) given to the real executable, each run as one process whose system calls are simulated: terminal, clock, output and the motors on the line, healthy or with lost, late, bad and damaged replies and failing system calls; exit status, printed results, transmitted bytes, line settings and motor registers are compared with the register model and with what the motors sent."),
			real: "the executable dynamixel2 of dynamixel2-cli with the dynamixel2 crate, serial2, clap, env_logger and the standard library above the C library, built from /repo's working tree",
			stub: "the C library's system calls on the terminal, the clock and output (simulated kernel, terminal, line and motors)",
			assumptions: ASS,
			require: &["confirmed", "not confirmed", "reply too long", "list of motors", "list with errors", "broadcast instruction", "broadcast read refused", "invalid arguments", "completion script", "completion script failed", "opening failed", "output refused", "verbose", "EINTR", "EAGAIN", "short write", "system call error", "hang-up", "reply lost", "crc damage"],
		},
		Meta {
			prop: "C19",
			rule: count_rule!("A sample of the runs of all the checks of the client and the device, each executed in every build of the crate (default features; `log` with a logger that formats every message, and without a logger; without default features; without overflow checks and debug assertions), in processes of their own; the timed traces and results must be equal in all builds."),
			real: "dynamixel2 (Client, Device, Bus, framing, byte stuffing, CRC, codecs, iterators) in four builds from /repo's working tree",
			stub: BUS,
			assumptions: ASS,
			require: &[],
		},
		m(
			"C18",
			count_rule!("Random histories of all operations with reply in which motors set random error and alert bits; each result must carry exactly the error byte of its reply, and each success its alert bit."),
			BUS,
			&["success with alert", "motor error with alert", "motor error"],
		),
	]
}
