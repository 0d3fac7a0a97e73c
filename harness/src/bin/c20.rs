//! C20: memory views and bump allocators against a flat array model; all histories up to a depth.
use binius_compute::{
	alloc::{BumpAllocator, ComputeAllocator},
	cpu::CpuMemory,
	memory::{ComputeMemory, SizedSlice, SlicesBatch, SubfieldSlice},
};
use binius_fast_compute::memory::{PackedMemory, PackedMemorySliceMut};
use binius_field::*;
use binius_utils::{
	array_2d::Array2D,
	random_access_sequence::{RandomAccessSequence, RandomAccessSequenceMut, SequenceSubrange, SequenceSubrangeMut},
	strided_array::StridedArray2DViewMut,
};
use vharness::*;

type F = BinaryField32b;

trait Access: ComputeMemory<F> + 'static {
	fn read(s: &Self::FSlice<'_>) -> Vec<F>;
	fn write(s: &mut Self::FSliceMut<'_>, i: usize, v: F);
}
impl Access for CpuMemory {
	fn read(s: &&[F]) -> Vec<F> {
		s.to_vec()
	}
	fn write(s: &mut &mut [F], i: usize, v: F) {
		s[i] = v
	}
}
impl<P: PackedField<Scalar = F>> Access for PackedMemory<P> {
	fn read(s: &Self::FSlice<'_>) -> Vec<F> {
		s.as_slice().iter().flat_map(|p| p.into_iter()).take(s.len()).collect()
	}
	fn write(s: &mut Self::FSliceMut<'_>, i: usize, v: F) {
		s.as_slice_mut()[i / P::WIDTH].set(i % P::WIDTH, v)
	}
}

/// replays a choice sequence and enumerates all of them
#[derive(Default)]
struct Choices {
	path: Vec<(usize, usize)>,
	pos: usize,
}
impl Choices {
	fn pick(&mut self, n: usize) -> usize {
		if self.pos == self.path.len() {
			self.path.push((0, n));
		}
		let (c, m) = self.path[self.pos];
		assert_eq!(m, n, "the enumeration is not deterministic");
		self.pos += 1;
		c
	}
	fn next(&mut self) -> bool {
		self.pos = 0;
		while let Some((c, n)) = self.path.pop() {
			if c + 1 < n {
				self.path.push((c + 1, n));
				return true;
			}
		}
		false
	}
}

struct Model {
	mem: Vec<F>,
	tag: u32,
	log: String,
}
impl Model {
	fn fresh(&mut self) -> F {
		self.tag += 1;
		F::new(self.tag.wrapping_mul(0x9e3779b1))
	}
}

fn verify<M: Access>(r: &mut Run, s: &M::FSliceMut<'_>, idx: &[usize], m: &Model) -> R {
	r.eq(&s.len(), &idx.len(), || format!("{}: length", m.log))?;
	r.eq(&s.is_empty(), &idx.is_empty(), || format!("{}: is_empty", m.log))?;
	let c = M::as_const(s);
	r.eq(&c.len(), &idx.len(), || format!("{}: length of the constant view", m.log))?;
	r.eq(&M::read(&c), &idx.iter().map(|&i| m.mem[i]).collect::<Vec<_>>(), || format!("{}: contents of view {idx:?}", m.log))
}
fn scribble<M: Access>(s: &mut M::FSliceMut<'_>, idx: &[usize], m: &mut Model) {
	for (k, &i) in idx.iter().enumerate() {
		let v = m.fresh();
		M::write(s, k, v);
		m.mem[i] = v;
	}
}

fn go<M: Access>(r: &mut Run, ch: &mut Choices, mut s: M::FSliceMut<'_>, idx: Vec<usize>, m: &mut Model, depth: usize) -> R {
	verify::<M>(r, &s, &idx, m)?;
	scribble::<M>(&mut s, &idx, m);
	verify::<M>(r, &s, &idx, m)?;
	if depth == 0 {
		return Ok(());
	}
	let (n, a) = (idx.len(), M::ALIGNMENT);
	let aligned: Vec<usize> = (0..=n).filter(|k| k % a == 0).collect();
	let sub = n < a; // only the operations documented for unaligned slices
	let mut ops: Vec<(&str, usize, usize)> = vec![("to_const", 0, 0), ("narrow_mut", 0, 0), ("to_owned_mut", 0, 0), ("slice_mut", 0, n), ("slice_chunks_mut", n.max(1), 0)];
	if n.is_power_of_two() && n > 1 {
		ops.push(("split_half_mut", 0, 0));
		ops.push(("split_half_mut", 1, 0));
		for k in 0..n.trailing_zeros() + 1 {
			ops.push(("slice_power_of_two_mut", 1 << k, 0));
		}
	}
	if !sub {
		for (x, &i) in aligned.iter().enumerate() {
			ops.push(("split_at_mut", i, 0));
			ops.push(("split_at_mut", i, 1));
			ops.push(("split_at_mut_borrowed", i, 0));
			if i > 0 && n % i == 0 && i < n {
				ops.push(("slice_chunks_mut", i, 0));
				ops.push(("slice_chunks_mut", i, n / i - 1));
			}
			for &j in &aligned[x..] {
				if (i, j) != (0, n) {
					ops.push(("slice_mut", i, j));
				}
			}
		}
	}
	if n == 0 {
		ops.retain(|o| o.0 != "slice_chunks_mut");
	}
	let (op, x, y) = ops[ch.pick(ops.len())];
	m.log = format!("{} > {op}({x},{y})", m.log);
	r.step(1);
	match op {
		"to_const" => {
			let c = M::to_const(s);
			r.eq(&M::read(&c), &idx.iter().map(|&i| m.mem[i]).collect::<Vec<_>>(), || format!("{}: contents", m.log))?;
			let all = M::slice(c, ..);
			r.eq(&M::read(&all), &idx.iter().map(|&i| m.mem[i]).collect::<Vec<_>>(), || format!("{}: contents of slice(..)", m.log))?;
			r.eq(&M::read(&M::narrow(&c)), &idx.iter().map(|&i| m.mem[i]).collect::<Vec<_>>(), || format!("{}: narrow", m.log))?;
			consts::<M>(r, c, &idx, m)
		}
		"narrow_mut" => go::<M>(r, ch, M::narrow_mut(s), idx, m, depth - 1),
		// writes through such a reborrow are a known finding, decided by `reborrow`
		"to_owned_mut" | "slice_mut" | "slice_power_of_two_mut" if sub && n > 0 && idx[0] % a != 0 => Ok(()),
		"to_owned_mut" => {
			go::<M>(r, ch, M::to_owned_mut(&mut s), idx.clone(), m, depth - 1)?;
			verify::<M>(r, &s, &idx, m)
		}
		"slice_mut" => {
			go::<M>(r, ch, M::slice_mut(&mut s, x..y), idx[x..y].to_vec(), m, depth - 1)?;
			verify::<M>(r, &s, &idx, m)?;
			scribble::<M>(&mut s, &idx, m);
			Ok(())
		}
		"slice_power_of_two_mut" => {
			go::<M>(r, ch, M::slice_power_of_two_mut(&mut s, x), idx[..x.min(n)].to_vec(), m, depth - 1)?;
			verify::<M>(r, &s, &idx, m)?;
			scribble::<M>(&mut s, &idx, m);
			Ok(())
		}
		"split_at_mut_borrowed" => {
			{
				let (a, b) = M::split_at_mut_borrowed(&mut s, x);
				go::<M>(r, ch, a, idx[..x].to_vec(), m, depth - 1)?;
				go::<M>(r, ch, b, idx[x..].to_vec(), m, 0)?;
			}
			verify::<M>(r, &s, &idx, m)
		}
		"split_at_mut" | "split_half_mut" => {
			let ((a, b), at, first) = if op == "split_at_mut" { (M::split_at_mut(s, x), x, y) } else { (M::split_half_mut(s), n / 2, x) };
			let (ia, ib) = (idx[..at].to_vec(), idx[at..].to_vec());
			if first == 0 {
				go::<M>(r, ch, a, ia, m, depth - 1)?;
				go::<M>(r, ch, b, ib, m, 0)
			} else {
				go::<M>(r, ch, b, ib, m, depth - 1)?;
				go::<M>(r, ch, a, ia, m, 0)
			}
		}
		_ => {
			let chunks: Vec<_> = M::slice_chunks_mut(s, x).collect();
			r.eq(&chunks.len(), &(n / x), || format!("{}: number of chunks", m.log))?;
			for (k, c) in chunks.into_iter().enumerate() {
				go::<M>(r, ch, c, idx[k * x..(k + 1) * x].to_vec(), m, if k == y { depth - 1 } else { 0 })?;
			}
			Ok(())
		}
	}
}
fn consts<M: Access>(r: &mut Run, c: M::FSlice<'_>, idx: &[usize], m: &Model) -> R {
	let (n, a) = (idx.len(), M::ALIGNMENT);
	let want = |lo: usize, hi: usize| idx[lo..hi].iter().map(|&i| m.mem[i]).collect::<Vec<_>>();
	if n % a == 0 {
		for i in (0..=n).step_by(a) {
			let (x, y) = M::split_at(c, i);
			r.eq(&(M::read(&x), M::read(&y)), &(want(0, i), want(i, n)), || format!("{}: split_at {i}", m.log))?;
			r.eq(&M::read(&M::slice(c, i..)), &want(i, n), || format!("{}: slice {i}..", m.log))?;
			r.eq(&M::read(&M::slice(c, ..i)), &want(0, i), || format!("{}: slice ..{i}", m.log))?;
			if i > 0 && a == 1 {
				r.eq(&M::read(&M::slice(c, ..=i - 1)), &want(0, i), || format!("{}: slice ..={}", m.log, i - 1))?;
			}
			for j in (i..=n).step_by(a) {
				r.eq(&M::read(&M::slice(c, i..j)), &want(i, j), || format!("{}: slice {i}..{j}", m.log))?;
			}
			if i > 0 && n % i == 0 {
				let ch: Vec<Vec<F>> = M::slice_chunks(c, i).map(|x| M::read(&x)).collect();
				r.eq(&ch, &(0..n / i).map(|k| want(k * i, (k + 1) * i)).collect::<Vec<_>>(), || format!("{}: chunks of {i}", m.log))?;
			}
		}
	}
	if n.is_power_of_two() && n > 1 {
		let (x, y) = M::split_half(c);
		r.eq(&(M::read(&x), M::read(&y)), &(want(0, n / 2), want(n / 2, n)), || format!("{}: split_half", m.log))?;
		consts::<M>(r, x, &idx[..n / 2], m)?;
		consts::<M>(r, y, &idx[n / 2..], m)?;
	}
	r.eq(&SubfieldSlice::<F, M>::new(c, 5).len(), &n, || "length of a subfield view at the top level".into())
}

fn views<M: Access>(ck: &Ck, name: &str, lens: &[usize], depth: usize, with: impl Fn(usize, &mut dyn FnMut(M::FSliceMut<'_>)) -> Vec<F> + Sync) {
	for &len in lens {
		let mut ch = Choices::default();
		loop {
			let desc = std::cell::RefCell::new(String::new());
			let ok = ck.case(name, || format!("length {len}: history {}", desc.borrow()), |r| {
				ch.pos = 0;
				let mut m = Model { mem: (0..len).map(|i| F::new(1000 + i as u32)).collect(), tag: 0, log: String::new() };
				let mut res = Ok(());
				let fin = with(len, &mut |s| res = go::<M>(r, &mut ch, s, (0..len).collect(), &mut m, depth));
				*desc.borrow_mut() = m.log.clone();
				res?;
				r.obs_dbg(&m.log);
				r.eq(&fin, &m.mem, || format!("{}: the memory after the history", m.log))
			});
			let _ = ok;
			if !ch.next() {
				break;
			}
		}
	}
}
fn packed<P: PackedField<Scalar = F>>(ck: &Ck, name: &str, packed_lens: &[usize], depth: usize) {
	let lens: Vec<usize> = packed_lens.iter().map(|l| l * P::WIDTH).collect();
	views::<PackedMemory<P>>(ck, name, &lens, depth, |len, f| {
		// guard elements on both sides of the memory handed out
		let guard = P::from_fn(|i| F::new(0xdead0000 + i as u32));
		let mut v = vec![guard; len / P::WIDTH + 2];
		let k = v.len();
		for i in 0..len {
			v[1 + i / P::WIDTH].set(i % P::WIDTH, F::new(1000 + i as u32));
		}
		f(PackedMemorySliceMut::new_slice(&mut v[1..k - 1]));
		assert!(v[0] == guard && v[k - 1] == guard, "a view wrote outside its memory");
		v[1..k - 1].iter().flat_map(|p| p.into_iter()).collect()
	});
}

fn allocators<M: Access>(ck: &Ck, name: &str, total: usize, sizes: &[usize], depth: usize, with: &dyn Fn(usize, &mut dyn FnMut(M::FSliceMut<'_>)) -> Vec<F>) {
	// every sequence of allocation sizes; every live allocation is tagged element by element
	let mut ch = Choices::default();
	loop {
		let log = std::cell::RefCell::new(vec![]);
		ck.case(name, || format!("buffer {total}: {:?}", log.borrow()), |r| {
			ch.pos = 0;
			let mut res = Ok(());
			let mut want = (0..total).map(|i| F::new(1000 + i as u32)).collect::<Vec<_>>();
			let fin = with(total, &mut |mut s| {
				res = (|| {
					let from_ref = ch.pick(2) == 1;
					let mut al = if from_ref { BumpAllocator::<F, M>::from_ref(&mut s) } else { BumpAllocator::<F, M>::new(M::to_owned_mut(&mut s)) };
					let n_before = ch.pick(depth + 1);
					let mut used = 0;
					fn run<M: Access>(r: &mut Run, ch: &mut Choices, al: &impl ComputeAllocator<F, M>, n: usize, used: &mut usize, total: usize, sizes: &[usize], want: &mut [F], log: &std::cell::RefCell<Vec<String>>) -> R {
						let mut live = vec![];
						for _ in 0..n {
							let k = sizes[ch.pick(sizes.len())];
							log.borrow_mut().push(format!("alloc({k})"));
							r.step(1);
							r.eq(&al.capacity(), &(total - *used), || "capacity before".into())?;
							match al.alloc(k) {
								Ok(x) => {
									let take = if k == 0 { 0 } else { k.max(M::ALIGNMENT) };
									r.ok(take <= total - *used, || "an allocation larger than the capacity succeeded".into())?;
									r.eq(&x.len(), &k, || "length of the allocation".into())?;
									live.push((x, *used));
									*used += take;
								}
								Err(_) => r.ok(k > total - *used, || format!("allocation of {k} refused with {} left", total - *used))?,
							}
							r.eq(&al.capacity(), &(total - *used), || "capacity after".into())?;
						}
						// write all live allocations, then read them all back: disjointness
						let mut t = 77 + (*used as u32) * 131;
						for (x, at) in live.iter_mut() {
							for i in 0..x.len() {
								t += 1;
								M::write(x, i, F::new(t));
								want[*at + i] = F::new(t);
							}
						}
						for (x, at) in &live {
							r.eq(&M::read(&M::as_const(x)), &want[*at..*at + x.len()].to_vec(), || "contents of a live allocation".into())?;
						}
						Ok(())
					}
					run::<M>(r, &mut ch, &al, n_before, &mut used, total, sizes, &mut want, &log)?;
					log.borrow_mut().push("subscope".into());
					let mut inner = used;
					{
						let sub = al.subscope_allocator();
						run::<M>(r, &mut ch, &sub, depth - n_before, &mut inner, total, sizes, &mut want, &log)?;
					}
					// the scope is over: its capacity is available again, earlier allocations are not
					r.eq(&al.capacity(), &(total - used), || "capacity after the scope".into())?;
					log.borrow_mut().push("outer again".into());
					run::<M>(r, &mut ch, &al, 1, &mut used, total, sizes, &mut want, &log)
				})();
			});
			res?;
			r.obs_dbg(&log.borrow());
			r.eq(&fin, &want, || "the memory after the history".into())
		});
		if !ch.next() {
			break;
		}
	}
}
fn with_packed<P: PackedField<Scalar = F>>(len: usize, f: &mut dyn FnMut(PackedMemorySliceMut<'_, P>)) -> Vec<F> {
	let mut v: Vec<P> = (0..len / P::WIDTH).map(|k| P::from_fn(|i| F::new(1000 + (k * P::WIDTH + i) as u32))).collect();
	f(PackedMemorySliceMut::new_slice(&mut v));
	v.iter().flat_map(|p| p.into_iter()).collect()
}
fn with_cpu(len: usize, f: &mut dyn FnMut(&mut [F])) -> Vec<F> {
	let mut v: Vec<F> = (0..len).map(|i| F::new(1000 + i as u32)).collect();
	f(&mut v);
	v
}

fn arrays(ck: &Ck) {
	for rows in 0..=4usize {
		for cols in 1..=4usize {
			ck.case("2-D arrays", || format!("{rows}x{cols}"), |r| {
				let n = rows * cols;
				let mut a = Array2D::<u32>::new(rows, cols);
				let z = Array2D::<u32>::zeroes(rows, cols);
				r.eq(&(a.rows(), a.cols(), z.rows(), z.cols()), &(rows, cols, rows, cols), || "dimensions".into())?;
				let mut m = vec![0u32; n];
				for i in 0..rows {
					for j in 0..cols {
						r.eq(&(a[(i, j)], z[(i, j)]), &(0, 0), || "initial value".into())?;
					}
				}
				for k in 0..n {
					a[(k / cols, k % cols)] = k as u32 + 1;
					m[k] = k as u32 + 1;
					let got: Vec<u32> = a.iter_rows().flatten().copied().collect();
					r.eq(&got, &m, || format!("after writing element {k}"))?;
				}
				for i in 0..rows {
					r.eq(&a.get_row(i).to_vec(), &m[i * cols..(i + 1) * cols].to_vec(), || format!("row {i}"))?;
					for j in 0..cols {
						a.get_row_mut(i)[j] += 100;
						m[i * cols + j] += 100;
						unsafe { *a.get_unchecked_mut(i, j) += 1000 };
						m[i * cols + j] += 1000;
						r.eq(unsafe { a.get_unchecked(i, j) }, &m[i * cols + j], || format!("element {i},{j}"))?;
					}
				}
				r.eq(&a.sum_rows(), &(0..cols).map(|j| (0..rows).map(|i| m[i * cols + j]).sum()).collect::<Vec<u32>>(), || "sums".into())?;
				for nr in 0..=n + 1 {
					for nc in 1..=n + 1 {
						match a.reshape(nr, nc) {
							Some(b) => {
								r.ok(nr * nc == n, || "reshape to another size".into())?;
								for k in 0..n {
									r.eq(&b[(k / nc, k % nc)], &m[k], || "reshaped element".into())?;
								}
								r.eq(&(b.rows(), b.iter_rows().count()), &(nr, nr), || "reshaped rows".into())?;
							}
							None => r.ok(nr * nc != n, || "reshape refused".into())?,
						}
						if let Some(mut b) = a.reshape_mut(nr, nc) {
							for k in 0..n {
								b[(k / nc, k % nc)] += 7;
								m[k] += 7;
							}
						}
					}
				}
				r.eq(&a.iter_rows().flatten().copied().collect::<Vec<_>>(), &m, || "after mutable reshapes".into())
			});
			for stride in 1..=cols + 1 {
				ck.case("strided views", || format!("{rows}x{cols} stride {stride}"), |r| {
					let n = rows * cols;
					for par in [false, true] {
						let mut d: Vec<u32> = (0..n as u32).collect();
						let v = StridedArray2DViewMut::without_stride(&mut d, rows, cols).map_err(|e| e.to_string())?;
						r.eq(&(v.height(), v.width()), &(rows, cols), || "dimensions".into())?;
						use binius_maybe_rayon::prelude::*;
						let views: Vec<_> = if par { v.into_par_strides(stride).collect() } else { v.into_strides(stride).collect() };
						r.eq(&views.len(), &cols.div_ceil(stride), || "number of strides".into())?;
						for (k, mut w) in views.into_iter().enumerate() {
							let width = stride.min(cols - k * stride);
							r.eq(&(w.height(), w.width()), &(rows, width), || format!("dimensions of stride {k}"))?;
							for i in 0..rows {
								for j in 0..width {
									let id = (i * cols + k * stride + j) as u32;
									r.eq(&w[(i, j)], &id, || format!("stride {k} element {i},{j}"))?;
									w[(i, j)] += 100;
									unsafe { *w.get_unchecked_mut(i, j) += 1000 };
								}
							}
							for j in 0..width {
								let ids: Vec<u32> = w.iter_column_mut(j).map(|x| { *x += 10000; *x }).collect();
								r.eq(&ids, &(0..rows).map(|i| (i * cols + k * stride + j) as u32 + 11100).collect::<Vec<_>>(), || format!("stride {k} column {j}"))?;
							}
							let bad = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| w[(0, width)]));
							r.ok(bad.is_err(), || "a column outside the stride was read".into())?;
						}
						r.eq(&d, &(0..n as u32).map(|x| x + 11100).collect::<Vec<_>>(), || "every element exactly once".into())?;
					}
					let mut d = vec![0u32; n + 1];
					r.ok(StridedArray2DViewMut::without_stride(&mut d, rows, cols).is_err(), || "wrong data size accepted".into())
				});
			}
		}
	}
	for len in 0..=5usize {
		for off in 0..=6usize {
			for l in 0..=6usize {
				ck.case("sequence subranges", || format!("{off}+{l} of {len}"), |r| {
					let mut d: Vec<u32> = (0..len as u32).collect();
					let fits = off + l <= len;
					{
						let s: &[u32] = &d;
						let sub = std::panic::catch_unwind(|| SequenceSubrange::new(&s, off, l));
						r.eq(&sub.is_ok(), &fits, || "acceptance".into())?;
						if let Ok(sub) = sub {
							r.eq(&(sub.len(), sub.is_empty()), &(l, l == 0), || "length".into())?;
							for i in 0..l {
								r.eq(&sub.get(i), &((off + i) as u32), || format!("element {i}"))?;
								for o2 in 0..=l {
									for l2 in 0..=l - o2 {
										let ss = SequenceSubrange::new(&sub, o2, l2);
										for k in 0..l2 {
											r.eq(&ss.get(k), &((off + o2 + k) as u32), || "nested element".into())?;
										}
									}
								}
							}
							for i in l..l + 3 {
								r.ok(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| sub.get(i))).is_err(), || format!("element {i} outside the range was read"))?;
							}
						}
					}
					if fits {
						let mut s: &mut [u32] = &mut d;
						{
							let mut sub = SequenceSubrangeMut::new(&mut s, off, l);
							for i in 0..l {
								sub.set(i, 100 + i as u32);
								r.eq(&sub.get(i), &(100 + i as u32), || "written element".into())?;
							}
							for i in l..l + 3 {
								r.ok(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| sub.set(i, 9))).is_err(), || format!("element {i} outside the range was written"))?;
							}
						}
						r.eq(&d, &(0..len).map(|i| if i >= off && i < off + l { 100 + (i - off) as u32 } else { i as u32 }).collect::<Vec<_>>(), || "only the range is written".into())?;
					}
					Ok(())
				});
			}
		}
	}
	for a in 0..=3usize {
		for b in 0..=3usize {
			ck.case("slice batches", || format!("{a} rows of {b}"), |r| {
				let d: Vec<u32> = (0..(a * b) as u32).collect();
				let rows: Vec<&[u32]> = (0..a).map(|i| &d[i * b..(i + 1) * b]).collect();
				let s = SlicesBatch::new(rows.clone(), b);
				r.eq(&(s.n_rows(), s.row_len()), &(a, b), || "dimensions".into())?;
				r.eq(&s.iter().copied().collect::<Vec<_>>(), &rows, || "iteration".into())?;
				for i in 0..a {
					r.eq(s.row(i), &rows[i], || format!("row {i}"))?;
				}
				r.ok(a == 0 || std::panic::catch_unwind(|| SlicesBatch::new(rows.clone(), b + 1)).is_err(), || "rows of another length accepted".into())
			});
		}
	}
}

/// Writes through a reborrow of every chunk shorter than a packed element.
fn reborrow<P: PackedField<Scalar = F>>(ck: &Ck, name: &str) {
	for log in 0..P::LOG_WIDTH {
		for k in 0..P::WIDTH >> log {
			for op in ["to_owned_mut", "slice_mut", "slice_power_of_two_mut"] {
			ck.case("reborrowed sub-packed chunk", || format!("{op} of {name}: chunk {k} of length {}", 1 << log), |r| {
				let mut v = vec![P::from_fn(|i| F::new(1000 + i as u32))];
				let mut want: Vec<F> = v[0].into_iter().collect();
				{
					let mut s = PackedMemorySliceMut::new_slice(&mut v);
					for b in (0..P::LOG_WIDTH - log).rev() {
						let (lo, hi) = PackedMemory::<P>::split_half_mut(s);
						s = if k >> b & 1 == 1 { hi } else { lo };
					}
					{
						let mut o = match op {
							"slice_mut" => PackedMemory::<P>::slice_mut(&mut s, ..),
							"to_owned_mut" => PackedMemory::<P>::to_owned_mut(&mut s),
							_ => PackedMemory::<P>::slice_power_of_two_mut(&mut s, 1 << log),
						};
						for i in 0..1 << log {
							let x = F::new(0x77770000 + i as u32);
							PackedMemory::<P>::write(&mut o, i, x);
							want[(k << log) + i] = x;
						}
					}
					r.eq(&PackedMemory::<P>::read(&PackedMemory::<P>::as_const(&s)), &want[k << log..(k + 1) << log].to_vec(), || "the chunk after writes through its reborrow".into())?;
				}
				r.eq(&v[0].into_iter().collect::<Vec<_>>(), &want, || "the memory after writes through a reborrowed chunk".into())
			});
			}
		}
	}
}

fn main() {
	let mut ck = Ck::new("C20");
	let d = ck.pick(1, 2);
	ck.bound(format!("views: every sequence of up to {} slicing, splitting, chunking and reborrowing operations (all aligned positions) on 1..=4 packed elements of width 1, 2, 4, 8 and on host memory; every element rewritten with a fresh tag at every step", 3 + d));
	ck.bound(format!("allocators: every sequence of {} allocations distributed over a scope and a sub-scope, plus one after the scope, sizes around the alignment and the capacity, including exhaustion", 3 + d));
	ck.bound("2-D, strided, sub-range views and slice batches: all shapes up to 4x4 and every index");
	ck.assume("BumpAllocator::alloc is one critical section of a std Mutex: racing allocations are then some sequence of the ones enumerated; other interleavings are not explored");
	{
		let ck = &ck;
		reborrow::<PackedBinaryField2x32b>(ck, "2x32b");
		reborrow::<PackedBinaryField4x32b>(ck, "4x32b");
		reborrow::<PackedBinaryField8x32b>(ck, "8x32b");
		views::<CpuMemory>(ck, "host views", &[1, 2, 4, 6], 2 + d, |len, f| with_cpu(len, &mut |s| f(s)));
		packed::<PackedBinaryField1x32b>(ck, "views of 1x32b", &[1, 2, 4], 2 + d);
		packed::<PackedBinaryField2x32b>(ck, "views of 2x32b", &[1, 2, 3, 4], 3 + d);
		packed::<PackedBinaryField4x32b>(ck, "views of 4x32b", &[1, 2, 3], 3 + d);
		packed::<PackedBinaryField8x32b>(ck, "views of 8x32b", &[1, 2], 4 + d);
		allocators::<CpuMemory>(ck, "host allocator", 6, &[0, 1, 2, 3, 6, 7], 3 + d, &|l, f| with_cpu(l, &mut |s| f(s)));
		allocators::<PackedMemory<PackedBinaryField4x32b>>(ck, "packed allocator", 16, &[1, 2, 4, 8, 12, 16, 20], 3 + d, &|l, f| with_packed::<PackedBinaryField4x32b>(l, &mut |s| f(s)));
		allocators::<PackedMemory<PackedBinaryField2x32b>>(ck, "packed allocator of width 2", 8, &[0, 1, 2, 4, 6, 8, 10], 3 + d, &|l, f| with_packed::<PackedBinaryField2x32b>(l, &mut |s| f(s)));
		arrays(ck);
	}
	ck.finish();
}
