//! A tiny text codec for generated values, so that every failing input can be
//! written to a replay file and read back without the generator library.
//! A value is a flat sequence of whitespace-free tokens.

pub struct Toks<'a> {
    it: std::vec::IntoIter<&'a str>,
}
impl<'a> Toks<'a> {
    pub fn new(s: &'a str) -> Self {
        Toks { it: s.split_whitespace().collect::<Vec<_>>().into_iter() }
    }
    pub fn next(&mut self) -> Result<&'a str, String> {
        self.it.next().ok_or_else(|| "replay value too short".to_string())
    }
    pub fn done(&mut self) -> bool {
        self.it.next().is_none()
    }
}

/// FNV-1a, for counting distinct cases.
pub fn mix(h: u64, v: u64) -> u64 {
    let mut h = h;
    for i in 0..8 {
        h ^= (v >> (8 * i)) & 0xff;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

pub trait Codec: Clone {
    fn put(&self, out: &mut Vec<String>);
    fn take(t: &mut Toks) -> Result<Self, String>;
    fn dig(&self, h: u64) -> u64;
    fn encode(&self) -> String {
        let mut v = Vec::new();
        self.put(&mut v);
        v.join(" ")
    }
    fn decode(s: &str) -> Result<Self, String> {
        let mut t = Toks::new(s);
        let v = Self::take(&mut t)?;
        if !t.done() {
            return Err("replay value too long".into());
        }
        Ok(v)
    }
}

macro_rules! ints {
    ($($t:ty),*) => {$(
        impl Codec for $t {
            fn put(&self, out: &mut Vec<String>) { out.push(self.to_string()); }
            fn take(t: &mut Toks) -> Result<Self, String> {
                let s = t.next()?;
                s.parse::<$t>().map_err(|e| format!("{s}: {e}"))
            }
            fn dig(&self, h: u64) -> u64 { mix(h, *self as u64) }
        }
    )*};
}
ints!(i64, u64, u32, u8, usize);

impl Codec for bool {
    fn put(&self, out: &mut Vec<String>) {
        out.push(if *self { "T" } else { "F" }.into());
    }
    fn take(t: &mut Toks) -> Result<Self, String> {
        match t.next()? {
            "T" => Ok(true),
            "F" => Ok(false),
            s => Err(format!("not a bool: {s}")),
        }
    }
    fn dig(&self, h: u64) -> u64 {
        mix(h, *self as u64)
    }
}

impl Codec for f64 {
    fn put(&self, out: &mut Vec<String>) {
        // `{:?}` of an f64 round-trips exactly through `parse`.
        out.push(format!("{:?}", self));
    }
    fn take(t: &mut Toks) -> Result<Self, String> {
        let s = t.next()?;
        s.parse::<f64>().map_err(|e| format!("{s}: {e}"))
    }
    fn dig(&self, h: u64) -> u64 {
        mix(h, self.to_bits())
    }
}

impl Codec for String {
    fn put(&self, out: &mut Vec<String>) {
        let hex: String = self.as_bytes().iter().map(|b| format!("{:02x}", b)).collect();
        out.push(format!("s:{hex}"));
    }
    fn take(t: &mut Toks) -> Result<Self, String> {
        let s = t.next()?;
        let s = s.strip_prefix("s:").ok_or("not a string token")?;
        let mut v = Vec::new();
        for i in (0..s.len()).step_by(2) {
            v.push(u8::from_str_radix(&s[i..i + 2], 16).map_err(|e| e.to_string())?);
        }
        String::from_utf8(v).map_err(|e| e.to_string())
    }
    fn dig(&self, h: u64) -> u64 {
        self.bytes().fold(mix(h, self.len() as u64), |h, b| mix(h, b as u64))
    }
}

impl<T: Codec> Codec for Vec<T> {
    fn put(&self, out: &mut Vec<String>) {
        out.push(format!("#{}", self.len()));
        for x in self {
            x.put(out);
        }
    }
    fn take(t: &mut Toks) -> Result<Self, String> {
        let s = t.next()?;
        let n: usize = s
            .strip_prefix('#')
            .ok_or("not a length token")?
            .parse()
            .map_err(|_| "bad length".to_string())?;
        (0..n).map(|_| T::take(t)).collect()
    }
    fn dig(&self, h: u64) -> u64 {
        self.iter().fold(mix(h, self.len() as u64), |h, x| x.dig(h))
    }
}

impl<T: Codec> Codec for Option<T> {
    fn put(&self, out: &mut Vec<String>) {
        match self {
            None => out.push("-".into()),
            Some(x) => {
                out.push("+".into());
                x.put(out);
            }
        }
    }
    fn take(t: &mut Toks) -> Result<Self, String> {
        match t.next()? {
            "-" => Ok(None),
            "+" => Ok(Some(T::take(t)?)),
            s => Err(format!("not an option: {s}")),
        }
    }
    fn dig(&self, h: u64) -> u64 {
        match self {
            None => mix(h, 0),
            Some(x) => x.dig(mix(h, 1)),
        }
    }
}

macro_rules! tuples {
    ($(($($n:ident $i:tt),+)),+ $(,)?) => {$(
        impl<$($n: Codec),+> Codec for ($($n,)+) {
            fn put(&self, out: &mut Vec<String>) { $(self.$i.put(out);)+ }
            fn take(t: &mut Toks) -> Result<Self, String> { Ok(($($n::take(t)?,)+)) }
            fn dig(&self, h: u64) -> u64 { let mut h = h; $(h = self.$i.dig(h);)+ h }
        }
    )+};
}
tuples!(
    (A 0),
    (A 0, B 1),
    (A 0, B 1, C 2),
    (A 0, B 1, C 2, D 3),
    (A 0, B 1, C 2, D 3, E 4),
    (A 0, B 1, C 2, D 3, E 4, F 5),
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6),
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7),
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8),
);
