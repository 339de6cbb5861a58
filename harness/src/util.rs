/// splitmix64: all random choices of the harness derive from VERIF_SEED
#[derive(Clone, Debug)]
pub struct Rg(pub u64);
impl Rg {
    pub fn new(seed: u64) -> Self {
        let mut r = Rg(seed ^ 0x9E3779B97F4A7C15);
        r.next();
        r
    }
    pub fn sub(seed: u64, n: u64) -> Self {
        let mut a = Rg::new(seed);
        let x = a.next() ^ n.wrapping_mul(0xD1342543DE82EF95);
        Rg::new(x)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    /// inclusive
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, pct: usize) -> bool {
        self.below(100) < pct
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.below(s.len())]
    }
    pub fn shuffle<T>(&mut self, s: &mut [T]) {
        for i in (1..s.len()).rev() {
            let j = self.below(i + 1);
            s.swap(i, j);
        }
    }
    /// index by weights
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let t: u32 = w.iter().sum();
        let mut x = (self.next() % t as u64) as u32;
        for (i, k) in w.iter().enumerate() {
            if x < *k {
                return i;
            }
            x -= k;
        }
        w.len() - 1
    }
}

/// Minimal JSON object/array writer
pub struct J(pub String);
impl J {
    pub fn obj() -> Self {
        J(String::from("{"))
    }
    fn sep(&mut self) {
        let c = self.0.as_bytes()[self.0.len() - 1];
        if c != b'{' && c != b'[' {
            self.0.push(',');
        }
    }
    pub fn key(&mut self, k: &str) -> &mut Self {
        self.sep();
        self.0.push('"');
        self.0.push_str(k);
        self.0.push_str("\":");
        self
    }
    pub fn s(&mut self, k: &str, v: &str) -> &mut Self {
        self.key(k);
        self.0.push_str(&quote(v));
        self
    }
    pub fn n<T: std::fmt::Display>(&mut self, k: &str, v: T) -> &mut Self {
        self.key(k);
        self.0.push_str(&v.to_string());
        self
    }
    pub fn b(&mut self, k: &str, v: bool) -> &mut Self {
        self.key(k);
        self.0.push_str(if v { "true" } else { "false" });
        self
    }
    pub fn raw(&mut self, k: &str, v: &str) -> &mut Self {
        self.key(k);
        self.0.push_str(v);
        self
    }
    pub fn end(&mut self) -> String {
        let mut s = std::mem::take(&mut self.0);
        s.push('}');
        s
    }
}
pub fn quote(v: &str) -> String {
    let mut o = String::with_capacity(v.len() + 2);
    o.push('"');
    for c in v.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || (c as u32) > 126 => o.push('?'),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn arr<I: IntoIterator<Item = String>>(it: I) -> String {
    let mut s = String::from("[");
    let mut first = true;
    for x in it {
        if !first {
            s.push(',');
        }
        first = false;
        s.push_str(&x);
    }
    s.push(']');
    s
}
pub fn bytes_arr(b: &[u8]) -> String {
    arr(b.iter().map(|x| x.to_string()))
}
