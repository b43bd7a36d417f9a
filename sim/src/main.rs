#![feature(thread_local, alloc_error_hook)]
#![allow(static_mut_refs)]

mod driver;
mod gen;
mod heap;
mod hooks;
mod judge;
mod plan;
mod prng;
mod sched;
mod sers;
mod session;
mod simstore;
mod store;
mod types;
mod walk;

#[global_allocator]
static ALLOC: heap::SimAlloc = heap::SimAlloc;

fn main() {
	heap::init();
	walk::init();
	sched::init();
	if std::env::var_os("SIM_PANICS").is_none() {
		std::panic::set_hook(Box::new(|_| {}));
	}
	std::alloc::set_alloc_error_hook(|_| std::panic::panic_any(heap::SimOomTag));
	driver::main();
}
