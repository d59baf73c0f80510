//! Enumeration helpers: every finite set is addressed by an index.

/// Mixed-radix digits of `i` (least significant first).
pub fn digits(mut i: u64, radices: &[u64]) -> Vec<u64> {
    radices.iter().map(|&r| { let d = i % r; i /= r; d }).collect()
}
pub fn product(radices: &[u64]) -> u64 { radices.iter().product() }

/// `n` digits in base `b`.
pub fn word(mut i: u64, b: u64, n: usize) -> Vec<usize> {
    (0..n).map(|_| { let d = i % b; i /= b; d as usize }).collect()
}

/// Number of words of length 0..=n over an alphabet of size b.
pub fn nwords(b: u64, n: usize) -> u64 { (0..=n as u32).map(|k| b.pow(k)).sum() }
/// The i-th word of length 0..=n (shortest first).
pub fn words(i: u64, b: u64) -> Vec<usize> {
    let mut i = i;
    let mut n = 0usize;
    while i >= b.pow(n as u32) { i -= b.pow(n as u32); n += 1; }
    word(i, b, n)
}

pub fn binom(n: u64, k: u64) -> u64 {
    if k > n { return 0; }
    let mut r: u64 = 1;
    for i in 0..k { r = r * (n - i) / (i + 1); }
    r
}
/// i-th k-subset of 0..n in colexicographic order.
pub fn combination(mut i: u64, n: usize, k: usize) -> Vec<usize> {
    let mut res = vec![];
    let mut k = k as u64;
    let mut m = n as u64;
    while k > 0 {
        // largest m with binom(m, k) <= i
        loop { m -= 1; if binom(m, k) <= i { break; } }
        res.push(m as usize);
        i -= binom(m, k);
        k -= 1;
    }
    res.reverse();
    res
}
/// Number of subsets with between lo and hi elements.
pub fn nsubsets(n: usize, lo: usize, hi: usize) -> u64 { (lo..=hi).map(|k| binom(n as u64, k as u64)).sum() }
pub fn subset(mut i: u64, n: usize, lo: usize, hi: usize) -> Vec<usize> {
    for k in lo..=hi { let b = binom(n as u64, k as u64); if i < b { return combination(i, n, k); } i -= b; }
    unreachable!()
}

pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 { return vec![vec![]]; }
    let mut res = vec![];
    for p in permutations(n - 1) { for k in 0..n { let mut q = p.clone(); q.insert(k, n - 1); res.push(q); } }
    res.sort(); res
}
pub fn parity(p: &[usize]) -> i128 {
    let mut s = 1; for i in 0..p.len() { for j in 0..i { if p[j] > p[i] { s = -s; } } } s
}
/// All k-subsets as lists.
pub fn combos(n: usize, k: usize) -> Vec<Vec<usize>> { (0..binom(n as u64, k as u64)).map(|i| combination(i, n, k)).collect() }

/// All integer vectors with entries in lo..=hi.
pub fn box_vectors(d: usize, lo: i64, hi: i64) -> Vec<Vec<i64>> {
    let b = (hi - lo + 1) as u64;
    (0..b.pow(d as u32)).map(|i| word(i, b, d).into_iter().map(|x| x as i64 + lo).collect()).collect()
}
