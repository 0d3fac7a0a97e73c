//! Challengers used instead of the hash challenger: fixed coins and recording.

use std::sync::{Arc, Mutex};

use binius_core::fiat_shamir::Challenger;
use bytes::{Buf, BufMut, buf::UninitSlice};

/// A challenger whose challenges are a fixed pseudo-random stream that does not depend on what is
/// observed: the verifier's coins are public and fixed, so an altered message cannot hide behind a
/// diverged transcript.
#[derive(Debug, Clone)]
pub struct FixedCoins {
	sink: Sink,
	src: Stream,
}
#[derive(Debug, Clone)]
pub struct Sink([u8; 64]);
#[derive(Debug, Clone)]
pub struct Stream {
	ctr: u64,
	buf: [u8; 8],
	pos: usize,
}
impl Default for FixedCoins {
	fn default() -> Self {
		Self {
			sink: Sink([0; 64]),
			src: Stream::new(7),
		}
	}
}
impl Stream {
	pub fn new(seed: u64) -> Self {
		let ctr = seed.wrapping_mul(0x1234567);
		Self {
			ctr,
			buf: crate::mix(ctr).to_le_bytes(),
			pos: 0,
		}
	}
}
unsafe impl BufMut for Sink {
	fn remaining_mut(&self) -> usize {
		usize::MAX
	}
	unsafe fn advance_mut(&mut self, _cnt: usize) {}
	fn chunk_mut(&mut self) -> &mut UninitSlice {
		(&mut self.0[..]).into()
	}
}
impl Buf for Stream {
	fn remaining(&self) -> usize {
		usize::MAX
	}
	fn chunk(&self) -> &[u8] {
		&self.buf[self.pos..]
	}
	fn advance(&mut self, mut cnt: usize) {
		while cnt > 0 {
			let n = cnt.min(8 - self.pos);
			self.pos += n;
			cnt -= n;
			if self.pos == 8 {
				self.ctr = self.ctr.wrapping_add(1);
				self.buf = crate::mix(self.ctr).to_le_bytes();
				self.pos = 0;
			}
		}
	}
}
impl Challenger for FixedCoins {
	fn observer(&mut self) -> &mut impl BufMut {
		&mut self.sink
	}
	fn sampler(&mut self) -> &mut impl Buf {
		&mut self.src
	}
}

/// Events seen by a challenger.
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Ev {
	Observe(Vec<u8>),
	Sample(usize),
}
thread_local! {
	/// The log of the recording challengers created on this thread.
	pub static LOG: std::cell::RefCell<Arc<Mutex<Vec<Ev>>>> = Default::default();
}
pub fn start_log() -> Arc<Mutex<Vec<Ev>>> {
	let l: Arc<Mutex<Vec<Ev>>> = Default::default();
	LOG.with(|g| *g.borrow_mut() = l.clone());
	l
}

/// Records every observe and sample (with fixed coins), merging adjacent events of a kind.
#[derive(Debug, Clone)]
pub struct Recording {
	obs: RecSink,
	src: RecStream,
}
#[derive(Debug, Clone)]
pub struct RecSink {
	log: Arc<Mutex<Vec<Ev>>>,
	buf: [u8; 64],
}
#[derive(Debug, Clone)]
pub struct RecStream {
	log: Arc<Mutex<Vec<Ev>>>,
	inner: Stream,
}
impl Default for Recording {
	fn default() -> Self {
		let log = LOG.with(|g| g.borrow().clone());
		Self {
			obs: RecSink {
				log: log.clone(),
				buf: [0; 64],
			},
			src: RecStream {
				log,
				inner: Stream::new(7),
			},
		}
	}
}
unsafe impl BufMut for RecSink {
	fn remaining_mut(&self) -> usize {
		usize::MAX
	}
	unsafe fn advance_mut(&mut self, cnt: usize) {
		assert!(cnt <= 64);
		let mut l = self.log.lock().unwrap();
		if let Some(Ev::Observe(v)) = l.last_mut() {
			v.extend_from_slice(&self.buf[..cnt]);
		} else if cnt > 0 {
			l.push(Ev::Observe(self.buf[..cnt].to_vec()));
		}
	}
	fn chunk_mut(&mut self) -> &mut UninitSlice {
		(&mut self.buf[..]).into()
	}
}
impl Buf for RecStream {
	fn remaining(&self) -> usize {
		usize::MAX
	}
	fn chunk(&self) -> &[u8] {
		self.inner.chunk()
	}
	fn advance(&mut self, cnt: usize) {
		let mut l = self.log.lock().unwrap();
		if let Some(Ev::Sample(n)) = l.last_mut() {
			*n += cnt;
		} else if cnt > 0 {
			l.push(Ev::Sample(cnt));
		}
		drop(l);
		self.inner.advance(cnt)
	}
}
impl Challenger for Recording {
	fn observer(&mut self) -> &mut impl BufMut {
		&mut self.obs
	}
	fn sampler(&mut self) -> &mut impl Buf {
		&mut self.src
	}
}
