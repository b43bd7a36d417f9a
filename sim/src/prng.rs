//! The only source of randomness: a 64-bit counter generator (splitmix64).

#[derive(Clone, Copy, Debug)]
pub struct Rng(pub u64);

pub fn mix(mut z: u64) -> u64 {
	z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
	z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
	z ^ (z >> 31)
}

impl Rng {
	pub fn new(seed: u64) -> Rng {
		Rng(mix(seed ^ 0x5851f42d4c957f2d))
	}
	pub fn next(&mut self) -> u64 {
		self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
		mix(self.0)
	}
	/// Uniform in `0..n` (0 if `n` is 0).
	pub fn below(&mut self, n: u64) -> u64 {
		if n == 0 {
			0
		} else {
			self.next() % n
		}
	}
	pub fn range(&mut self, lo: u64, hi_incl: u64) -> u64 {
		lo + self.below(hi_incl - lo + 1)
	}
	/// True with probability `permille` / 1000.
	pub fn chance(&mut self, permille: u64) -> bool {
		self.below(1000) < permille
	}
	pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
		xs[self.below(xs.len() as u64) as usize]
	}
	/// Roughly log-uniform in `0..=max`: small values common, large ones possible.
	pub fn skewed(&mut self, max: u64) -> u64 {
		if max == 0 {
			return 0;
		}
		let bits = 64 - max.leading_zeros() as u64;
		let b = self.below(bits + 1);
		let v = if b == 0 { 0 } else { (1u64 << (b - 1)) | self.below(1u64 << (b - 1)) };
		v.min(max)
	}
}
