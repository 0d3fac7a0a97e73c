//! C32: utility collections and arithmetic helpers against reference models, all inputs and histories up to a size.
use std::{collections::BTreeMap, mem::MaybeUninit};

use binius_utils::{
	checked_arithmetics::{checked_int_div, checked_log_2, log2_ceil_usize, log2_strict_usize, min_bits, strict_log_2},
	env::boolean_env_flag_set,
	graph::connected_components,
	iter::IterExtensions,
	mem::{slice_assume_init_mut, slice_assume_init_ref, slice_uninit_mut},
	sorting::{is_sorted_ascending, stable_sort, unsort},
	sparse_index::SparseIndex,
};
use vharness::*;

fn graph(ck: &Ck) {
	// every list of up to k subsets of nodes 0..n, in every order of the subsets; subsets also listed in descending order and with repetitions
	let (n, k) = (4usize, ck.pick(3, 4));
	let sub = 1usize << n;
	for len in 0..=k {
		let jobs: Vec<usize> = (0..sub.pow(len as u32)).collect();
		ck.par(&jobs, |&c| {
			for style in 0..3 {
				let sets: Vec<Vec<usize>> = (0..len)
					.map(|i| {
						let m = c / sub.pow(i as u32) % sub;
						let mut v: Vec<usize> = (0..n).filter(|b| m >> b & 1 == 1).collect();
						match style {
							1 => v.reverse(),
							2 => v = v.iter().chain(v.iter().rev()).copied().collect(),
							_ => {}
						}
						v
					})
					.collect();
				ck.case("connected components", || format!("{sets:?}"), |r| {
					let got = connected_components(&sets[..]);
					if sets.is_empty() {
						return r.eq(&got, &vec![], || "no sets".into());
					}
					let max = sets.iter().flatten().copied().max().unwrap_or(0);
					let mut lab: Vec<usize> = (0..=max).collect();
					loop {
						let old = lab.clone();
						for s in &sets {
							if let Some(m) = s.iter().map(|&x| lab[x]).min() {
								s.iter().for_each(|&x| lab[x] = m);
							}
						}
						if lab == old {
							break;
						}
					}
					r.obs(&lab);
					r.eq(&got, &lab, || "labels".into())
				});
			}
		});
	}
	// longer chains over more nodes, every permutation of path edges
	let edges: Vec<Vec<usize>> = (0..6).map(|i| vec![i, i + 1]).collect();
	fn perms(k: usize, p: &mut Vec<Vec<usize>>, f: &mut impl FnMut(&[Vec<usize>])) {
		if k == p.len() {
			return f(p);
		}
		for i in k..p.len() {
			p.swap(k, i);
			perms(k + 1, p, f);
			p.swap(k, i);
		}
	}
	perms(0, &mut edges.clone(), &mut |p| {
		let p = p.to_vec();
		ck.case("connected components", || format!("path {p:?}"), |r| {
			r.eq(&connected_components(&p[..]), &vec![0; 7], || "one path".into())?;
			r.eq(&connected_components(&p[..5].iter().chain([&vec![8, 9]]).cloned().collect::<Vec<_>>()[..]).len(), &10, || "node count".into())
		});
	});
}

fn sorting(ck: &Ck) {
	let maxl = ck.pick(6, 7);
	for len in 0..=maxl {
		let jobs: Vec<usize> = (0..3usize.pow(len as u32)).collect();
		ck.par(&jobs, |&c| {
			let v: Vec<(usize, usize)> = (0..len).map(|i| (c / 3usize.pow(i as u32) % 3, i)).collect();
			ck.case("sorting", || format!("{v:?}"), |r| {
				r.eq(&is_sorted_ascending(v.iter().map(|x| x.0)), &v.windows(2).all(|w| w[0].0 <= w[1].0), || "is_sorted_ascending".into())?;
				for desc in [false, true] {
					let (idx, out) = stable_sort(v.clone(), |x| x.0, desc);
					// insertion sort as the model
					let mut want: Vec<(usize, usize)> = vec![];
					for &x in &v {
						let p = want.iter().position(|y| if desc { y.0 < x.0 } else { y.0 > x.0 }).unwrap_or(want.len());
						want.insert(p, x);
					}
					r.eq(&out, &want, || format!("stable_sort descending={desc}"))?;
					r.eq(&idx, &want.iter().map(|x| x.1).collect::<Vec<_>>(), || "original indices".into())?;
					r.eq(&unsort(idx.clone(), out.clone()), &v, || "unsort".into())?;
					r.obs_dbg(&idx);
				}
				Ok(())
			});
		});
	}
}

fn sparse(ck: &Ck) {
	// every history of operations over ids 0..4
	let ops = 4 * 5;
	let depth = ck.pick(3, 4);
	for cap in [None, Some(0), Some(2), Some(5)] {
		for len in 0..=depth {
			let jobs: Vec<usize> = (0..(ops as usize).pow(len as u32)).collect();
			ck.par(&jobs, |&c| {
				ck.case("sparse index", || format!("capacity {cap:?} history {c} of length {len}"), |r| {
					let mut s: SparseIndex<usize> = match cap {
						None => SparseIndex::new(),
						Some(k) => SparseIndex::with_capacity(k),
					};
					let mut m: BTreeMap<usize, usize> = BTreeMap::new();
					for step in 0..len {
						let o = c / (ops as usize).pow(step as u32) % ops;
						let (id, op) = (o % 4, o / 4);
						let val = 100 * (step + 1) + id;
						match op {
							0 => {
								s.set(id, val);
								m.insert(id, val);
							}
							1 => {
								let got = *s.entry(id).or_insert(val);
								r.eq(&got, m.entry(id).or_insert(val), || "entry or_insert".into())?;
							}
							2 => {
								*s.entry(id).or_insert_with(|| val) += 1;
								*m.entry(id).or_insert(val) += 1;
							}
							3 => {
								r.eq(&s.get_mut(id).map(|x| *x), &m.get(&id).copied(), || "get_mut".into())?;
								if let Some(x) = s.get_mut(id) {
									*x += 7;
									*m.get_mut(&id).unwrap() += 7;
								}
							}
							_ => {
								for (i, v) in s.iter_mut() {
									*v += i;
								}
								for v in s.values_mut() {
									*v *= 2;
								}
								m.iter_mut().for_each(|(i, v)| *v = (*v + i) * 2);
							}
						}
						r.step(1);
						let kv: Vec<(usize, usize)> = m.iter().map(|(a, b)| (*a, *b)).collect();
						r.eq(&(s.len(), s.is_empty()), &(m.len(), m.is_empty()), || "len".into())?;
						r.eq(&s.iter().map(|(a, b)| (a, *b)).collect::<Vec<_>>(), &kv, || "iter".into())?;
						r.eq(&s.iter().rev().map(|(a, b)| (a, *b)).collect::<Vec<_>>(), &kv.iter().rev().copied().collect::<Vec<_>>(), || "iter reversed".into())?;
						r.eq(&s.keys().collect::<Vec<_>>(), &kv.iter().map(|x| x.0).collect::<Vec<_>>(), || "keys".into())?;
						r.eq(&s.values().copied().collect::<Vec<_>>(), &kv.iter().map(|x| x.1).collect::<Vec<_>>(), || "values".into())?;
						r.eq(&s.clone().into_iter().collect::<Vec<_>>(), &kv, || "into_iter".into())?;
						r.eq(&kv.iter().copied().collect::<SparseIndex<_>>().into_iter().collect::<Vec<_>>(), &kv, || "from_iter".into())?;
						for i in 0..7 {
							r.eq(&(s.get(i).copied(), s.contains_key(i)), &(m.get(&i).copied(), m.contains_key(&i)), || format!("get {i}"))?;
							if m.contains_key(&i) {
								r.eq(&s[i], &m[&i], || "index".into())?;
								s[i] += 1;
								*m.get_mut(&i).unwrap() += 1;
							} else {
								r.ok(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s[i])).is_err(), || format!("missing entry {i} was indexed"))?;
							}
						}
						r.obs_dbg(&kv);
					}
					Ok(())
				});
			});
		}
	}
}

fn iterators(ck: &Ck) {
	// every sequence of next/nth calls on iterators of every length up to 6
	for len in 0..=6usize {
		for c in 0..6usize.pow(4) {
			ck.case("skippable map", || format!("length {len}, calls {c}"), |r| {
				let calls = std::cell::RefCell::new(vec![]);
				let data: Vec<usize> = (10..10 + len).collect();
				let mut a = data.iter().map_skippable(|x| {
					calls.borrow_mut().push(*x);
					x * x
				});
				let mut b = data.iter();
				let mut want_calls = vec![];
				for k in 0..4 {
					let o = c / 6usize.pow(k) % 6;
					r.eq(&a.size_hint(), &b.size_hint(), || "size_hint".into())?;
					r.eq(&a.len(), &b.len(), || "len".into())?;
					let (x, y) = match o {
						0 => (a.next(), b.next()),
						o => (a.nth(o - 1), b.nth(o - 1)),
					};
					want_calls.extend(y.copied());
					r.eq(&x, &y.map(|y| y * y), || format!("call {k}"))?;
				}
				r.eq(&a.fold(1usize, |s, x| s.wrapping_mul(31).wrapping_add(x)), &b.clone().fold(1usize, |s, x| s.wrapping_mul(31).wrapping_add(x * x)), || "fold of the rest".into())?;
				want_calls.extend(b.copied());
				r.eq(&*calls.borrow(), &want_calls, || "the function is applied exactly to the values delivered".into())
			});
		}
	}
}

fn arithmetic(ck: &Ck) {
	let mut vals: Vec<usize> = (0..ck.pick(2000, 70000)).collect();
	for b in 0..64 {
		for d in [-2i64, -1, 0, 1, 2] {
			vals.push((1usize << b).wrapping_add(d as usize));
		}
		for e in 0..b {
			vals.push(1 << b | 1 << e);
		}
	}
	vals.push(usize::MAX);
	let panics = |f: &dyn Fn() -> usize| std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok();
	for &v in &vals {
		ck.case("logarithms", || format!("{v}"), |r| {
			let exact = (0..64).find(|&k| v == 1usize << k);
			let bits = (0..=64).find(|&k| k == 64 || v < 1usize << k).unwrap();
			let ceil = if v <= 1 { 0 } else { (0..=64).find(|&k| k == 64 || v <= 1usize << k).unwrap() };
			r.eq(&strict_log_2(v), &exact, || "strict_log_2".into())?;
			r.eq(&panics(&|| checked_log_2(v)), &exact, || "checked_log_2".into())?;
			r.eq(&panics(&|| log2_strict_usize(v)), &exact, || "log2_strict_usize".into())?;
			r.eq(&min_bits(v), &bits, || "min_bits".into())?;
			r.eq(&log2_ceil_usize(v), &ceil, || "log2_ceil_usize".into())
		});
	}
	for a in 0..=64usize {
		for b in 1..=20usize {
			ck.case("exact division", || format!("{a}/{b}"), |r| {
				r.eq(&panics(&|| checked_int_div(a, b)), &(0..=a).find(|q| q * b == a), || "checked_int_div".into())?;
				let big = a.wrapping_mul(1 << 57);
				r.eq(&panics(&|| checked_int_div(big, b)), &if big % b == 0 { Some(big / b) } else { None }, || "checked_int_div of a large value".into())
			});
		}
	}
	ck.case("exact division", || "by zero".into(), |r| r.ok(panics(&|| checked_int_div(4, 0)).is_none(), || "division by zero".into()));
}

fn memory(ck: &Ck) {
	for n in 0..=8usize {
		ck.case("uninitialised slices", || format!("{n}"), |r| {
			let mut v: Vec<u64> = (0..n as u64).collect();
			let p = v.as_ptr() as usize;
			{
				let u: &mut [MaybeUninit<u64>] = slice_uninit_mut(&mut v);
				r.eq(&(u.len(), u.as_ptr() as usize), &(n, p), || "same memory".into())?;
				for (i, x) in u.iter_mut().enumerate() {
					x.write(100 + i as u64);
				}
				r.eq(&unsafe { slice_assume_init_ref(u) }.to_vec(), &(100..100 + n as u64).collect::<Vec<_>>(), || "assume_init_ref".into())?;
				let w = unsafe { slice_assume_init_mut(u) };
				r.eq(&w.len(), &n, || "assume_init_mut".into())?;
				w.iter_mut().for_each(|x| *x += 1);
			}
			r.eq(&v, &(101..101 + n as u64).collect::<Vec<_>>(), || "writes are visible".into())?;
			let mut s = vec![String::from("x"); n];
			r.ok(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| slice_uninit_mut(&mut s).len())).is_err(), || "a type with a destructor was accepted".into())
		});
	}
	for (i, (v, want)) in [(None, false), (Some("0"), false), (Some("false"), false), (Some("1"), true), (Some("true"), true)].into_iter().enumerate() {
		ck.case("environment flags", || format!("{v:?}"), |r| {
			let name = format!("VERIF_FLAG_{i}");
			// Safety: no other thread of this process reads or writes the environment now
			unsafe { if let Some(v) = v { std::env::set_var(&name, v) } };
			r.eq(&boolean_env_flag_set(&name), &want, || "flag".into())
		});
	}
}

fn main() {
	let mut ck = Ck::new("C32");
	ck.bound("graph: all lists of up to 3 (4) subsets of 4 nodes in three listing orders, all orders of a 6-edge path; sorting: all key sequences over 3 keys up to length 6 (7)");
	ck.bound("sparse index: all histories of up to 3 (4) operations over 4 ids; skippable map: all sequences of 4 next/nth calls on lengths 0..=6");
	ck.bound("arithmetic: all values below 2000 (70000) and around every power of two; division: all a <= 64, b <= 20");
	{
		let ck = &ck;
		memory(ck);
		graph(ck);
		sorting(ck);
		sparse(ck);
		iterators(ck);
		arithmetic(ck);
	}
	ck.finish();
}
