//! A recorded source of bounded choices. Every random decision of a generator goes through it, so a
//! case is its choice list: it can be replayed and shrunk (0 is always the simplest choice).
pub struct Src {
    state: [u64; 2],
    pub rec: Vec<u32>,
    replay: Option<Vec<u32>>,
    pos: usize,
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Src {
    pub fn new(seed: u64) -> Self {
        let mut s = seed;
        let a = splitmix(&mut s);
        let b = splitmix(&mut s);
        Src { state: [a, b | 1], rec: Vec::new(), replay: None, pos: 0 }
    }
    pub fn replay(choices: Vec<u32>) -> Self {
        Src { state: [1, 1], rec: Vec::new(), replay: Some(choices), pos: 0 }
    }
    fn next(&mut self) -> u64 {
        let mut s1 = self.state[0];
        let s0 = self.state[1];
        let r = s0.wrapping_add(s1);
        self.state[0] = s0;
        s1 ^= s1 << 23;
        self.state[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
        r
    }
    /// A choice in [0, n).
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        let v = match &self.replay {
            Some(r) => {
                let v = r.get(self.pos).copied().unwrap_or(0) as usize % n;
                self.pos += 1;
                v
            }
            None => (self.next() >> 11) as usize % n,
        };
        self.rec.push(v as u32);
        v
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as usize) as i64
    }
    /// True with probability p/q; 0 (the simplest choice) means false.
    pub fn chance(&mut self, p: usize, q: usize) -> bool {
        self.below(q) >= q - p.min(q)
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len());
        &xs[i]
    }
    /// Weighted choice; index of the selected weight.
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let total: u32 = ws.iter().sum();
        let mut v = self.below(total.max(1) as usize) as u32;
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        0
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = i - self.below(i + 1);
            xs.swap(i, j);
        }
    }
}

/// Shrinks a choice list while `fails` keeps returning true, within `budget` attempts.
pub fn shrink(mut cur: Vec<u32>, budget: usize, mut fails: impl FnMut(&[u32]) -> bool) -> Vec<u32> {
    let budget = if std::env::var_os("VERIF_NO_SHRINK").is_some() { 0 } else { budget };
    let mut left = budget;
    let mut size = (cur.len() / 2).max(1);
    while size >= 1 && left > 0 {
        let mut progressed = false;
        let mut i = 0;
        while i < cur.len() && left > 0 {
            let end = (i + size).min(cur.len());
            let mut cand = cur.clone();
            cand.drain(i..end);
            left -= 1;
            if fails(&cand) {
                cur = cand;
                progressed = true;
                continue;
            }
            if cur[i..end].iter().any(|v| *v != 0) && left > 0 {
                let mut cand = cur.clone();
                for v in &mut cand[i..end] {
                    *v = 0;
                }
                left -= 1;
                if fails(&cand) {
                    cur = cand;
                    progressed = true;
                }
            }
            i += size;
        }
        if !progressed {
            if size == 1 {
                break;
            }
            size /= 2;
        }
    }
    cur
}
