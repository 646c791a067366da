//! Functions written in many idioms: the evaluation of their summaries is compared with their execution
//! (a test of the engine itself, not a check of a property).
#![allow(clippy::all)]
use std::collections::*;

pub struct R { pub k: i32, pub v: i32 }
fn mk(v: &[i32]) -> Vec<R> { v.iter().map(|x| R { k: *x, v: x.wrapping_add(1) }).collect() }

pub fn skip_sel(v: &[i32], _w: &[i32], n: usize) -> Vec<i32> { v.iter().filter(|x| **x > 0).skip(n).cloned().collect() }
pub fn skip_sel2(v: &[i32], _w: &[i32], n: usize) -> Vec<i32> {
    let all: Vec<i32> = v.iter().filter(|x| **x > 0).cloned().collect();
    let mut r = vec![]; for x in all.into_iter().skip(n) { r.push(x); } r }
pub fn skip_ref(v: &[i32], _w: &[i32], n: usize) -> Vec<i32> {
    let rs = mk(v); let sel: Vec<&R> = rs.iter().filter(|r| r.k > 0).collect();
    sel.iter().skip(n).map(|r| r.v).collect() }
pub fn take_sel(v: &[i32], _w: &[i32], n: usize) -> Vec<i32> { v.iter().filter(|x| **x > 0).take(n).cloned().collect() }
pub fn take_map(v: &[i32], _w: &[i32], n: usize) -> Vec<i32> { v.iter().map(|x| x ^ 1).take(n).collect() }
pub fn rev_sel(v: &[i32], _w: &[i32], _n: usize) -> Vec<i32> { v.iter().filter(|x| **x > 0).rev().cloned().collect() }
pub fn rev_map(v: &[i32], _w: &[i32], _n: usize) -> Vec<i32> { v.iter().map(|x| x ^ 1).rev().collect() }
pub fn rev_for(v: &[i32], _w: &[i32], _n: usize) -> Vec<i32> { let mut r = vec![]; for i in (0..v.len()).rev() { r.push(v[i]); } r }
pub fn chain1(v: &[i32], w: &[i32], _n: usize) -> Vec<i32> { v.iter().chain(w.iter()).cloned().collect() }
pub fn chain2(v: &[i32], w: &[i32], _n: usize) -> Vec<i32> { v.iter().filter(|x| **x > 0).chain(w.iter().filter(|x| **x < 0)).cloned().collect() }
pub fn chain3(v: &[i32], w: &[i32], _n: usize) -> Vec<i32> { let mut r = vec![]; for x in v.iter().chain(w) { if *x > 0 { r.push(*x); } } r }
pub fn zip1(v: &[i32], w: &[i32], _n: usize) -> Vec<i32> { v.iter().zip(w.iter()).map(|(a, b)| a.wrapping_add(*b)).collect() }
pub fn zip_sel(v: &[i32], w: &[i32], _n: usize) -> Vec<i32> { v.iter().filter(|x| **x > 0).zip(w.iter()).map(|(a, b)| a.wrapping_sub(*b)).collect() }
pub fn zip_idx(v: &[i32], w: &[i32], _n: usize) -> Vec<i32> { let mut r = vec![]; for (i, x) in v.iter().enumerate() { if i < w.len() { r.push(x.wrapping_sub(w[i])); } } r }
pub fn flat1(v: &[i32], _w: &[i32], n: usize) -> Vec<i32> { v.iter().flat_map(|x| vec![*x; n % 3]).collect() }
pub fn flat2(v: &[i32], _w: &[i32], _n: usize) -> Vec<i32> { v.iter().map(|x| if *x > 0 { Some(*x) } else { None }).flatten().collect() }
pub fn take_while1(v: &[i32], _w: &[i32], _n: usize) -> Vec<i32> { v.iter().take_while(|x| **x > 0).cloned().collect() }
pub fn take_while_c(v: &[i32], _w: &[i32], _n: usize) -> Vec<i32> { vec![v.iter().take_while(|x| **x > 0).count() as i32] }
pub fn skip_while1(v: &[i32], _w: &[i32], _n: usize) -> Vec<i32> { v.iter().skip_while(|x| **x > 0).cloned().collect() }
pub fn map_while1(v: &[i32], _w: &[i32], _n: usize) -> Vec<i32> { v.iter().map_while(|x| x.checked_add(i32::MAX - 5)).collect() }
pub fn step1(v: &[i32], _w: &[i32], _n: usize) -> Vec<i32> { v.iter().step_by(2).cloned().collect() }
pub fn step2(v: &[i32], _w: &[i32], _n: usize) -> Vec<i32> { v.iter().filter(|x| **x > 0).step_by(2).cloned().collect() }
pub fn chunks1(v: &[i32], _w: &[i32], _n: usize) -> Vec<i32> { v.chunks(3).map(|c| c.len() as i32 * 100 + c[0] % 7).collect() }
pub fn chunks2(v: &[i32], _w: &[i32], _n: usize) -> Vec<i32> { let mut r = vec![]; for c in v.chunks(2) { for x in c { r.push(*x); } r.push(-1); } r }
pub fn windows1(v: &[i32], _w: &[i32], _n: usize) -> Vec<i32> { v.windows(2).map(|c| c[1].wrapping_sub(c[0])).collect() }
pub fn nth1(v: &[i32], _w: &[i32], n: usize) -> Vec<i32> { v.iter().filter(|x| **x > 0).nth(n).cloned().into_iter().collect() }
pub fn nth2(v: &[i32], _w: &[i32], n: usize) -> Vec<i32> { let mut i = v.iter(); let a = i.nth(n); let b = i.next(); vec![*a.unwrap_or(&-1), *b.unwrap_or(&-2)] }
pub fn last1(v: &[i32], _w: &[i32], _n: usize) -> Vec<i32> { v.iter().filter(|x| **x > 0).last().cloned().into_iter().collect() }
pub fn peek1(v: &[i32], _w: &[i32], _n: usize) -> Vec<i32> { let mut i = v.iter().peekable(); let mut r = vec![]; while let Some(x) = i.next() { if i.peek().is_some() { r.push(*x); } else { r.push(-*x % 100); } } r }
pub fn retain1(v: &[i32], _w: &[i32], _n: usize) -> Vec<i32> { let mut r = v.to_vec(); r.retain(|x| *x > 0); r }
pub fn incl(v: &[i32], _w: &[i32], n: usize) -> Vec<i32> { let mut r = vec![]; for i in 0..=n { if i < v.len() { r.push(v[i]); } } r }
pub fn incl_rev(_v: &[i32], _w: &[i32], n: usize) -> Vec<i32> { (1..=n).rev().map(|i| i as i32).collect() }
pub fn while1(v: &[i32], _w: &[i32], n: usize) -> Vec<i32> { let mut i = 0; let mut r = vec![]; while i < v.len() && i < n { r.push(v[i]); i += 1; } r }
pub fn loop1(v: &[i32], _w: &[i32], _n: usize) -> Vec<i32> { let mut i = 0; let mut r = vec![]; loop { if i == v.len() { break; } if v[i] > 0 { r.push(v[i]); } i += 1; } r }
pub fn loop_early(v: &[i32], w: &[i32], _n: usize) -> Vec<i32> { for (i, x) in v.iter().enumerate() { for y in w { if x == y { return vec![i as i32]; } } } vec![-1] }
pub fn pos1(v: &[i32], w: &[i32], _n: usize) -> Vec<i32> { v.iter().map(|x| match w.iter().position(|y| x == y) { Some(i) => i as i32, None => -1 }).collect() }
pub fn rpos(v: &[i32], _w: &[i32], _n: usize) -> Vec<i32> { vec![v.iter().rposition(|x| *x > 0).map(|i| i as i32).unwrap_or(-1)] }
pub fn find_rev(v: &[i32], _w: &[i32], _n: usize) -> Vec<i32> { v.iter().rev().find(|x| **x > 0).cloned().into_iter().collect() }
pub fn fold1(v: &[i32], _w: &[i32], _n: usize) -> Vec<i32> { vec![v.iter().fold(0i32, |a, x| a.wrapping_mul(3).wrapping_add(*x))] }
pub fn fold_vec(v: &[i32], _w: &[i32], _n: usize) -> Vec<i32> { v.iter().fold(Vec::new(), |mut a, x| { if *x != 0 { a.push(*x); } a }) }
pub fn sum1(v: &[i32], _w: &[i32], _n: usize) -> Vec<i32> { vec![v.iter().map(|x| (*x % 10) as i64).sum::<i64>() as i32] }
pub fn prod1(v: &[i32], _w: &[i32], _n: usize) -> Vec<i32> { vec![v.iter().take(4).map(|x| (*x % 10) as i64).product::<i64>() as i32] }
pub fn minmax(v: &[i32], _w: &[i32], _n: usize) -> Vec<i32> { vec![*v.iter().min().unwrap_or(&0), *v.iter().max().unwrap_or(&0)] }
pub fn min_by_key1(v: &[i32], _w: &[i32], _n: usize) -> Vec<i32> { v.iter().min_by_key(|x| *x % 5).cloned().into_iter().collect() }
pub fn max_by_key1(v: &[i32], _w: &[i32], _n: usize) -> Vec<i32> { v.iter().max_by_key(|x| *x % 5).cloned().into_iter().collect() }
pub fn all_any(v: &[i32], w: &[i32], _n: usize) -> Vec<i32> { vec![v.iter().all(|x| w.contains(x)) as i32, v.iter().any(|x| !w.contains(x)) as i32] }
pub fn partition1(v: &[i32], _w: &[i32], _n: usize) -> Vec<i32> { let (a, b): (Vec<i32>, Vec<i32>) = v.iter().partition(|x| **x > 0); let mut r = a; r.push(77); r.extend(b); r }
pub fn unzip1(v: &[i32], _w: &[i32], _n: usize) -> Vec<i32> { let (a, b): (Vec<i32>, Vec<i32>) = v.iter().map(|x| (x ^ 1, x ^ 2)).unzip(); let mut r = a; r.extend_from_slice(&b); r }
pub fn drain1(v: &[i32], _w: &[i32], n: usize) -> Vec<i32> { let mut r = v.to_vec(); let k = n.min(r.len()); let d: Vec<i32> = r.drain(..k).collect(); r.push(99); r.extend(d); r }
pub fn split_off1(v: &[i32], _w: &[i32], n: usize) -> Vec<i32> { let mut r = v.to_vec(); let k = n.min(r.len()); let t = r.split_off(k); let mut t = t; t.push(99); t.append(&mut r); t }
pub fn split_first1(v: &[i32], _w: &[i32], _n: usize) -> Vec<i32> { match v.split_first() { Some((a, b)) => { let mut r = b.to_vec(); r.push(*a); r } None => vec![] } }
pub fn split_last1(v: &[i32], _w: &[i32], _n: usize) -> Vec<i32> { match v.split_last() { Some((a, b)) => { let mut r = vec![*a]; r.extend(b.iter()); r } None => vec![] } }
pub fn pat_slice(v: &[i32], _w: &[i32], _n: usize) -> Vec<i32> { match v { [] => vec![], [a] => vec![*a], [a, .., b] => vec![*a, *b] } }
pub fn concat1(v: &[i32], w: &[i32], _n: usize) -> Vec<i32> { [v, w].concat() }
pub fn insert1(v: &[i32], _w: &[i32], n: usize) -> Vec<i32> { let mut r = v.to_vec(); let k = n.min(r.len()); r.insert(k, 42); r }
pub fn remove1(v: &[i32], _w: &[i32], n: usize) -> Vec<i32> { let mut r = v.to_vec(); if n < r.len() { let x = r.remove(n); r.push(x); } r }
pub fn swap1(v: &[i32], _w: &[i32], n: usize) -> Vec<i32> { let mut r = v.to_vec(); if n < r.len() { r.swap(0, n); } r }
pub fn iter_mut1(v: &[i32], _w: &[i32], _n: usize) -> Vec<i32> { let mut r = v.to_vec(); for x in r.iter_mut() { *x = x.wrapping_add(5); } r }
pub fn iter_mut2(v: &[i32], w: &[i32], _n: usize) -> Vec<i32> { let mut r = v.to_vec(); for (x, y) in r.iter_mut().zip(w) { *x = *y; } r }
pub fn first_mut1(v: &[i32], _w: &[i32], _n: usize) -> Vec<i32> { let mut r = v.to_vec(); if let Some(x) = r.first_mut() { *x = 3; } if let Some(x) = r.last_mut() { *x = 4; } r }
pub fn get_range(v: &[i32], _w: &[i32], n: usize) -> Vec<i32> { v.get(..n).map(|s| s.to_vec()).unwrap_or_default() }
pub fn bset(v: &[i32], _w: &[i32], _n: usize) -> Vec<i32> { let s: BTreeSet<usize> = v.iter().map(|x| (*x & 15) as usize).collect(); s.iter().map(|x| *x as i32).collect() }
pub fn hset(v: &[i32], _w: &[i32], _n: usize) -> Vec<i32> { let mut s: HashSet<i32> = HashSet::new(); let mut r = vec![]; for x in v { if s.insert(*x) { r.push(*x); } } r.push(s.len() as i32); r }
pub fn dup(v: &[i32], _w: &[i32], _n: usize) -> Vec<i32> { for i in 0..v.len() { for j in 0..i { if v[i] == v[j] { return vec![j as i32, i as i32]; } } } vec![] }
pub fn try_map(v: &[i32], _w: &[i32], _n: usize) -> Vec<i32> { let r: Result<Vec<i32>, i32> = v.iter().map(|x| if *x < 0 { Err(*x) } else { Ok(*x) }).collect(); match r { Ok(v) => v, Err(e) => vec![e] } }
pub fn try_opt(v: &[i32], _w: &[i32], _n: usize) -> Vec<i32> { let r: Option<Vec<i32>> = v.iter().map(|x| x.checked_mul(3)).collect(); r.unwrap_or(vec![7]) }
pub fn try_fold1(v: &[i32], _w: &[i32], _n: usize) -> Vec<i32> { match v.iter().try_fold(0i32, |a, x| a.checked_add(*x)) { Some(s) => vec![s], None => vec![] } }
fn q(v: &[i32], n: usize) -> Result<i32, String> { let x = v.get(n).ok_or("none".to_string())?; if *x < 0 { return Err("neg".to_string()); } Ok(*x) }
pub fn question(v: &[i32], _w: &[i32], n: usize) -> Vec<i32> { match q(v, n) { Ok(x) => vec![x], Err(e) => vec![-(e.len() as i32)] } }
pub fn let_else(v: &[i32], _w: &[i32], n: usize) -> Vec<i32> { let x = if let Some(x) = v.get(n) { x } else { return vec![]; }; vec![*x] }
pub fn enum_skip(v: &[i32], _w: &[i32], n: usize) -> Vec<i32> { v.iter().enumerate().skip(n).filter(|(i, _)| i % 2 == 0).map(|(i, x)| x ^ (i as i32)).collect() }
pub fn enum_sel(v: &[i32], _w: &[i32], _n: usize) -> Vec<i32> { v.iter().filter(|x| **x > 0).enumerate().map(|(i, x)| x ^ (i as i32)).collect() }
pub fn cond_count(v: &[i32], _w: &[i32], _n: usize) -> Vec<i32> { let mut c = 0; let mut r = vec![]; for x in v { if *x > 0 { c += 1; } else { r.push(c); } } r.push(c); r }
pub fn prefix(v: &[i32], _w: &[i32], _n: usize) -> Vec<i32> { let mut o = 0usize; let mut r = vec![]; for x in v { r.push(o as i32); o += (*x & 7) as usize; } r }
pub fn scan1(v: &[i32], _w: &[i32], _n: usize) -> Vec<i32> { v.iter().scan(0usize, |o, x| { let p = *o; *o += (*x & 7) as usize; Some(p as i32) }).collect() }
pub fn bytes1(v: &[i32], _w: &[i32], _n: usize) -> Vec<i32> { let mut b: Vec<u8> = vec![]; for x in v { b.extend_from_slice(&x.to_be_bytes()); } while b.len() % 3 != 0 { b.push(9); } b.iter().map(|x| *x as i32).collect() }
pub fn bytes2(v: &[i32], _w: &[i32], _n: usize) -> Vec<i32> { let b: Vec<u8> = v.iter().flat_map(|x| x.to_be_bytes().to_vec()).collect(); b.iter().map(|x| *x as i32).collect() }
pub fn pad(v: &[i32], _w: &[i32], _n: usize) -> Vec<i32> { let n = v.len(); let p = (4 - n % 4) % 4; let mut r = v.to_vec(); r.resize(n + p, 0); r }
pub fn pad2(v: &[i32], _w: &[i32], _n: usize) -> Vec<i32> { let mut r = v.to_vec(); let up = (v.len() + 3) / 4 * 4; while r.len() < up { r.push(0); } r }
pub fn pad3(v: &[i32], _w: &[i32], _n: usize) -> Vec<i32> { let mut r = v.to_vec(); if r.len() % 4 > 0 { for _ in 0..(4 - r.len() % 4) { r.push(0); } } r }
pub fn pad4(v: &[i32], _w: &[i32], _n: usize) -> Vec<i32> { let mut r = v.to_vec(); let up = (v.len() + 3) & !3; r.extend(std::iter::repeat(0).take(up - v.len())); r }
pub fn nested(v: &[i32], w: &[i32], _n: usize) -> Vec<i32> { let mut r = vec![]; for x in v { for y in w { r.push(x ^ y); } } r }
pub fn nested2(v: &[i32], w: &[i32], _n: usize) -> Vec<i32> { v.iter().flat_map(|x| w.iter().map(move |y| x ^ y)).collect() }
pub fn matches1(v: &[i32], _w: &[i32], _n: usize) -> Vec<i32> { v.iter().filter(|x| matches!(x, 1..=9)).cloned().collect() }
pub fn sort1(v: &[i32], _w: &[i32], _n: usize) -> Vec<i32> { let mut r = v.to_vec(); r.sort(); r }
pub fn dedup1(v: &[i32], _w: &[i32], _n: usize) -> Vec<i32> { let mut r = v.to_vec(); r.dedup(); r }
pub fn eq_seq(v: &[i32], w: &[i32], _n: usize) -> Vec<i32> { vec![(v == w) as i32, v.iter().eq(w.iter()) as i32, v.starts_with(w) as i32, v.ends_with(w) as i32] }
pub fn opt_chain(v: &[i32], _w: &[i32], n: usize) -> Vec<i32> { vec![v.get(n).copied().filter(|x| *x > 0).map_or(-1, |x| x), v.first().and_then(|x| x.checked_sub(1)).unwrap_or_default()] }
pub fn count_f(v: &[i32], w: &[i32], _n: usize) -> Vec<i32> { vec![v.iter().filter(|x| w.contains(x)).count() as i32] }
pub fn from_fn1(v: &[i32], _w: &[i32], n: usize) -> Vec<i32> { let mut i = 0; std::iter::from_fn(|| { if i < v.len() && i < n { i += 1; Some(v[i - 1]) } else { None } }).collect() }
pub fn while_let(v: &[i32], _w: &[i32], _n: usize) -> Vec<i32> { let mut s = v.to_vec(); let mut r = vec![]; while let Some(x) = s.pop() { r.push(x); } r }
pub fn slice_walk(v: &[i32], _w: &[i32], _n: usize) -> Vec<i32> { let mut s = v; let mut r = vec![]; while !s.is_empty() { r.push(s[0]); s = &s[1..]; } r }
pub fn labeled(v: &[i32], w: &[i32], _n: usize) -> Vec<i32> { let mut r = vec![]; 'o: for x in v { for y in w { if x == y { continue 'o; } } r.push(*x); } r }
pub fn binop(v: &[i32], _w: &[i32], n: usize) -> Vec<i32> { let n = n as i32; v.iter().map(|x| (x >> 3) & 0xff | (n << 2)).collect() }
pub fn map_hash(v: &[i32], w: &[i32], _n: usize) -> Vec<i32> { let mut m = BTreeMap::new(); for (i, x) in v.iter().enumerate() { m.insert(*x, i as i32); } w.iter().map(|y| *m.get(y).unwrap_or(&-1)).collect() }
pub fn rec1(v: &[i32], _w: &[i32], _n: usize) -> Vec<i32> { let rs = mk(v); let m: Option<&R> = rs.iter().find(|r| r.k == 3); vec![m.map(|r| r.v).unwrap_or(0)] }
pub fn copy_in(v: &[i32], w: &[i32], _n: usize) -> Vec<i32> { let mut r = vec![0; v.len() + w.len()]; r[..v.len()].copy_from_slice(v); let k = v.len(); r[k..].copy_from_slice(w); r }
pub fn split_at1(v: &[i32], _w: &[i32], n: usize) -> Vec<i32> { let (a, b) = v.split_at(n.min(v.len())); let mut r = b.to_vec(); r.extend(a); r }
pub fn repeat_n(v: &[i32], _w: &[i32], n: usize) -> Vec<i32> { v.repeat(n % 3) }
pub fn do_while(v: &[i32], _w: &[i32], n: usize) -> Vec<i32> { let mut r = vec![]; let mut left = v.len(); let st = n % 4 + 1; while left > 0 { let m = left.min(st); r.push(m as i32); left -= m; } r }
