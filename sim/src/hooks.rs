//! State of the callbacks from code under test into simulated user code.

use std::cell::Cell;

use crate::{heap::harness, sched};

/// Payload of an injected panic of user code.
pub struct SimUser;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Rec {
	/// position returned by a push made by user code
	Push(usize),
	/// position looked up by user code
	Look(usize),
	/// code of a correction was run
	Corr,
}

#[derive(Default)]
pub struct Hooks {
	/// callbacks so far
	pub visits: u64,
	/// user code panics at this callback (1-based); 0 never
	pub panic_at: u64,
	pub panicked: u64,
	pub recs: Vec<Rec>,
	/// problems seen by user code
	pub errs: Vec<(String, String)>,
	pub nested: u64,
	pub depth: u32,
	/// nested serializations are not run
	pub no_nested: bool,
	/// corrections are not issued
	pub no_corr: bool,
	pub acts: [u64; 8],
	/// huge gaps left by user code
	pub far: Vec<(usize, usize)>,
}

#[thread_local]
static HOOKS: Cell<*mut Hooks> = Cell::new(std::ptr::null_mut());

/// Run `f` with `h` receiving the callbacks of this thread.
pub fn with<R>(h: &mut Hooks, f: impl FnOnce() -> R) -> R {
	struct Reset(*mut Hooks);
	impl Drop for Reset {
		fn drop(&mut self) {
			HOOKS.set(self.0);
		}
	}
	let _r = Reset(HOOKS.replace(h));
	f()
}

pub fn current() -> Option<&'static mut Hooks> {
	unsafe { HOOKS.get().as_mut() }
}

/// User code is called back: other threads may run, a panic may be due.
pub fn visit() {
	sched::yield_point();
	if let Some(h) = current() {
		h.visits += 1;
		if h.panic_at != 0 && h.visits == h.panic_at {
			h.panicked += 1;
			std::panic::panic_any(SimUser);
		}
	}
}

pub fn rec(r: Rec) {
	if let Some(h) = current() {
		harness(|| h.recs.push(r));
	}
}

pub fn err(class: &str, m: impl FnOnce() -> String) {
	if let Some(h) = current() {
		harness(|| {
			if h.errs.len() < 8 {
				h.errs.push((class.to_string(), m()))
			}
		});
	}
}

pub fn far(pos: usize, size: usize) {
	if let Some(h) = current() {
		harness(|| h.far.push((pos, pos + size)));
	}
}

pub fn act(k: usize) {
	if let Some(h) = current() {
		h.acts[k] += 1;
	}
}

pub fn no_corr() -> bool {
	current().map_or(false, |h| h.no_corr)
}

/// Issue a deferred correction.
pub fn correct<S: ser_raw::Serializer, F: FnOnce(&mut S)>(s: &mut S, f: F) {
	if !no_corr() {
		s.overwrite_with(f);
	}
}
