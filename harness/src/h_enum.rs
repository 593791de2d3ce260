//! Enumeration of permutations and of prefixes.
use crate::common::*;
use crate::sym;
use walky::solvers::exact::{get_next_value, next_permutation, split_up_b_ary_number_into_n_chunks};

fn less(a: &[u64], b: &[u64]) -> bool {
    // strictly smaller in lexicographic order, without branching
    let mut lt = false;
    let mut eq = true;
    for i in 0..a.len() {
        lt |= eq & (a[i] < b[i]);
        eq &= a[i] == b[i];
    }
    lt
}
/// the successor, element by element: the last rise, the last larger element, the rest reversed
fn successor(x: &[u64]) -> Option<Vec<u64>> {
    let n = x.len();
    let i = (1..n).rev().find(|&i| x[i - 1] < x[i])? - 1;
    let j = (i + 1..n).rev().find(|&j| x[j] > x[i]).unwrap();
    let mut y = x.to_vec();
    y[i] = x[j];
    let mut rest = x[i + 1..].to_vec();
    rest[j - i - 1] = x[i];
    for (q, v) in rest.iter().rev().enumerate() {
        y[i + 1 + q] = *v;
    }
    Some(y)
}
/// params: -, n, largest value, number of elements in front that are not symbolic
pub fn h_next_permutation() {
    let (n, hi) = (sym::param(1) as usize, sym::param(2) as u64);
    let fixed = sym::param(3) as usize;
    let x: Vec<u64> = (0..n).map(|i| if i < fixed { (i as u64 * 7 + 3) % (hi + 1) } else { sym::u(0, hi) }).collect();
    let mut y = x.clone();
    let more = next_permutation(&mut y);
    sym::reach("computed");
    // same multiset
    let mut same = true;
    for v in &x {
        let mut a = 0u64;
        let mut b = 0u64;
        for i in 0..n {
            a += (x[i] == *v) as u64;
            b += (y[i] == *v) as u64;
        }
        same &= a == b;
    }
    sym::check(same, "the array is permuted");
    if n > 7 {
        let want = successor(&x);
        sym::check(more == want.is_some(), "only the last permutation has no next one");
        if let Some(w) = want {
            sym::check(w == y, "there is no permutation between the array and the next one");
        }
        return;
    }
    let mut p: Vec<usize> = (0..n).collect();
    let mut none_between = true;
    let mut last = true;
    perms(&mut p, 0, &mut |p| {
        let z: Vec<u64> = p.iter().map(|&i| x[i]).collect();
        let above = less(&x, &z);
        none_between &= !(above & less(&z, &y));
        last &= !above;
    });
    if more {
        sym::check(less(&x, &y), "the array grows in lexicographic order");
        sym::check(none_between, "there is no permutation between the array and the next one");
    } else {
        sym::check(last, "only the last permutation has no next one");
        sym::check(x == y, "the last permutation is left as it is");
    }
}
fn value(d: &[usize], b: usize) -> usize {
    d.iter().fold(0, |a, x| a * b + x)
}
/// params: -, digits, largest basis
pub fn h_next_value() {
    let (d, hi) = (sym::param(1) as usize, sym::param(2) as u64);
    let b = sym::u(1, hi) as usize;
    let b = if sym::param(3) > 0 { sym::param(3) as usize } else { b };
    let x: Vec<usize> = (0..d).map(|_| sym::u(0, hi - 1) as usize).collect();
    for v in &x {
        sym::assume(*v < b);
    }
    let mut y = x.clone();
    let r = get_next_value(&mut y, b);
    sym::reach("computed");
    let total = (0..d).fold(1usize, |a, _| a * b);
    let mut in_range = true;
    for v in &y {
        in_range &= *v < b;
    }
    sym::check(in_range, "the digits stay below the basis");
    match r {
        Some(z) => {
            sym::check(z == y, "the digits are updated to the returned value");
            sym::check(value(&y, b) == value(&x, b) + 1, "the next value is larger by one");
        }
        None => {
            sym::check(value(&x, b) == total - 1, "only the largest value has no next one");
        }
    }
}
/// The chunks partition the numbers of `d` digits. params: -, digits, basis (0: symbolic up to 6), largest number of chunks
pub fn h_chunks() {
    let (d, hi) = (sym::param(1) as usize, sym::param(3) as u64);
    let b = if sym::param(2) > 0 { sym::param(2) as usize } else { sym::u(2, 6) as usize };
    let n = sym::u(1, hi) as usize;
    let k = sym::u(0, hi - 1) as usize;
    sym::assume(k < n);
    let total = (0..d).fold(1usize, |a, _| a * b);
    sym::assume(n < total);
    let (lo, up) = split_up_b_ary_number_into_n_chunks(d, b, n, k);
    sym::reach("computed");
    sym::check(lo.len() == d && up.len() == d, "the bounds have the requested number of digits");
    let mut in_range = true;
    for v in lo.iter().chain(up.iter()) {
        in_range &= *v < b;
    }
    sym::check(in_range, "the digits of the bounds are below the basis");
    let (l, u) = (value(&lo, b), value(&up, b));
    if k == 0 {
        sym::check(l == 0, "the first chunk starts at zero");
    }
    if k + 1 == n {
        sym::check(u == 0 || u == total, "the last chunk ends behind the largest value");
    } else {
        let (lo2, _) = split_up_b_ary_number_into_n_chunks(d, b, n, k + 1);
        sym::check(value(&lo2, b) == u, "a chunk starts where the previous one ends");
        sym::check(l < u, "every chunk contains a value");
        sym::check(u - l <= total / n + 1, "the chunks have about the same size");
    }
}
