//! Finite enumerations.

/// Number of strings over an alphabet of `k` symbols with length `0..=n`.
pub fn n_strings(k: u64, n: u32) -> u64 {
    let mut total = 0;
    let mut p = 1;
    for _ in 0..=n {
        total += p;
        p *= k;
    }
    total
}

/// The `i`-th string over `k` symbols, shorter ones first.
pub fn nth_string(k: u64, mut i: u64) -> Vec<usize> {
    let mut len = 0;
    let mut p = 1;
    while i >= p {
        i -= p;
        p *= k;
        len += 1;
    }
    let mut v = vec![0; len];
    for d in (0..len).rev() {
        v[d] = (i % k) as usize;
        i /= k;
    }
    v
}

/// All strings up to length `n`, shorter ones first.
pub fn strings(k: u64, n: u32) -> Vec<Vec<usize>> {
    (0..n_strings(k, n)).map(|i| nth_string(k, i)).collect()
}

/// Mixed radix decoding.
pub struct Radix(pub u64);

impl Radix {
    pub fn take(&mut self, n: usize) -> usize {
        assert!(n > 0);
        let r = self.0 % n as u64;
        self.0 /= n as u64;
        r as usize
    }
}

pub fn fnv(bytes: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in bytes {
        h ^= u64::from(*b);
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

pub fn fnv_mix(h: u64, x: u64) -> u64 {
    let mut h = h ^ x;
    h = h.wrapping_mul(0x9E3779B97F4A7C15);
    h ^ (h >> 29)
}

/// All subsets of `0..n` as bit masks is simply `0..1<<n`; this yields the
/// combinations of size at most `k` as sorted index lists.
pub fn combinations(n: usize, k: usize) -> Vec<Vec<usize>> {
    let mut res = vec![Vec::new()];
    let mut frontier: Vec<Vec<usize>> = vec![Vec::new()];
    for _ in 0..k {
        let mut next = Vec::new();
        for c in &frontier {
            let start = c.last().map_or(0, |x| x + 1);
            for i in start..n {
                let mut c = c.clone();
                c.push(i);
                next.push(c);
            }
        }
        res.extend(next.iter().cloned());
        frontier = next;
    }
    res
}
