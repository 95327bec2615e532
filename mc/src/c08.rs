//! C08: integers. All values of the 8-, 16- and 32-bit types; boundary families for the wider
//! ones. The expected text comes from a decimal counter that is moved along with the value.
use crate::kit::run::Ctx;
use laby_common::internal::Buffer;
use laby_common::Render;

/// Right-aligned decimal digits.
#[derive(Clone)]
struct Dec {
    d: [u8; 48],
    at: usize,
}

impl Dec {
    fn of(mut v: u128) -> Dec {
        let mut x = Dec { d: [b'0'; 48], at: 48 };
        loop {
            x.at -= 1;
            x.d[x.at] = b'0' + (v % 10) as u8;
            v /= 10;
            if v == 0 {
                return x;
            }
        }
    }
    #[inline]
    fn inc(&mut self) {
        let mut i = 47;
        while self.d[i] == b'9' {
            self.d[i] = b'0';
            i -= 1;
        }
        // leading positions hold '0'
        self.d[i] += 1;
        if i < self.at {
            self.at = i;
        }
    }
    #[inline]
    fn text(&self) -> &[u8] {
        &self.d[self.at..]
    }
    #[inline]
    fn neg(&mut self) -> &[u8] {
        self.d[self.at - 1] = b'-';
        &self.d[self.at - 1..]
    }
    #[inline]
    fn unneg(&mut self) {
        self.d[self.at - 1] = b'0';
    }
}

fn decimal(neg: bool, mag: u128) -> Vec<u8> {
    let mut d = Dec::of(mag);
    if neg { d.neg().to_vec() } else { d.text().to_vec() }
}

#[inline]
fn same<T: Render>(c: &mut Ctx, b: &mut Buffer, v: T, want: &[u8], ty: &str) {
    c.transitions += 1;
    b.clear();
    v.render(b);
    if b.as_str().as_bytes() != want {
        let got = b.as_str().to_string();
        c.fail(format!("{ty}: {:?} rendered for the value {}", got, String::from_utf8_lossy(want)));
    }
}

/// All values of a type in blocks.
macro_rules! all_values {
    ($c:expr, $t:ident, $nz:ident, $step:expr) => {{
        let c: &mut Ctx = $c;
        let lo = <$t>::MIN as i128;
        let hi = <$t>::MAX as i128;
        let block = 1i128 << 21;
        let mut start = lo;
        let mut n = 0u64;
        while start <= hi {
            let end = (start + block - 1).min(hi);
            let full = $step == 1 || ((start - lo) / block) % $step == 0 || start <= 0 && end >= -1 || end == hi || start == lo;
            if full && c.take() {
                c.describe(|| format!("every {} from {} to {}", stringify!($t), start, end));
                let mut b = Buffer::with_capacity(64);
                // non-negative part upwards
                if end >= 0 {
                    let s = start.max(0);
                    let mut d = Dec::of(s as u128);
                    let mut v = s;
                    loop {
                        same(c, &mut b, v as $t, d.text(), stringify!($t));
                        if let Some(z) = std::num::$nz::new(v as $t) {
                            if v < 1 << 17 || v & 63 == 7 {
                                same(c, &mut b, z, d.text(), stringify!($nz));
                            }
                        }
                        if v & 0xffff == 0 {
                            c.outcome(b.as_str().as_bytes());
                        }
                        if v == end {
                            break;
                        }
                        v += 1;
                        d.inc();
                    }
                    n += (end - s + 1) as u64;
                }
                if start < 0 {
                    let e = end.min(-1);
                    let mut mag = -e;
                    let mut d = Dec::of(mag as u128);
                    loop {
                        same(c, &mut b, (-mag) as $t, d.neg(), stringify!($t));
                        if let Some(z) = std::num::$nz::new((-mag) as $t) {
                            if mag < 1 << 17 || mag & 63 == 7 {
                                same(c, &mut b, z, d.neg(), stringify!($nz));
                            }
                        }
                        if -mag == start {
                            break;
                        }
                        d.unneg();
                        mag += 1;
                        d.inc();
                    }
                    n += (e - start + 1) as u64;
                }
            }
            start += block;
        }
        n
    }};
}

/// Magnitudes at which digit counts, digit groups, machine words and carries change.
fn families(thorough: bool) -> Vec<u128> {
    let mut v: Vec<u128> = Vec::new();
    let r: u128 = if thorough { 3000 } else { 300 };
    let mut pow: Vec<u128> = (0..39).map(|k| 10u128.pow(k)).collect();
    pow.extend((0..128).map(|k| 1u128 << k));
    pow.push(u128::MAX);
    for &p in &pow {
        for d in 0..=r {
            v.push(p.saturating_add(d));
            v.push(p.saturating_sub(d));
        }
    }
    // one or two non-zero digits anywhere
    for i in 0..39u32 {
        for a in 1..=9u128 {
            let Some(x) = 10u128.pow(i).checked_mul(a) else { continue };
            v.push(x);
            for j in 0..i {
                for b in 1..=9u128 {
                    if let Some(y) = x.checked_add(10u128.pow(j) * b) {
                        v.push(y);
                    }
                }
            }
        }
    }
    // runs of one digit, ending and starting anywhere
    for a in 1..=9u128 {
        for i in 0..39u32 {
            let mut run = 0u128;
            for j in i..39 {
                match 10u128.pow(j).checked_mul(a).and_then(|x| run.checked_add(x)) {
                    Some(x) => run = x,
                    None => break,
                }
                v.push(run);
            }
        }
    }
    // groups of 4 and 8 digits with boundary contents
    let g4: [u128; 10] = [0, 1, 9, 10, 99, 100, 999, 1000, 5049, 9999];
    let g8: [u128; 12] = [0, 1, 9999, 10000, 10001, 99999, 100000, 999999, 1000000, 9999999, 10000000, 99999999];
    for &a in &g8 {
        for &b in &g8 {
            for &d in &g8 {
                v.push((a * 100000000 + b) * 100000000 + d);
                for &e in &g8 {
                    v.push(((a * 100000000 + b) * 100000000 + d) * 100000000 + e);
                    if thorough || e == a {
                        for top in [1u128, 9, 99, 100, 999, 9999, 123456, 3402823] {
                            if let Some(x) = top.checked_mul(10u128.pow(32)) {
                                if let Some(x) = x.checked_add(((a * 100000000 + b) * 100000000 + d) * 100000000 + e) {
                                    v.push(x);
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    for &a in &g4 {
        for &b in &g4 {
            for &d in &g4 {
                for &e in &g4 {
                    v.push(((a * 10000 + b) * 10000 + d) * 10000 + e);
                    v.push((((a * 10000 + b) * 10000 + d) * 10000 + e) * 10000 + 7);
                    v.push((((a * 10000 + b) * 10000 + d) * 10000 + e) + 18 * 10u128.pow(18));
                }
            }
        }
    }
    // every 16-bit window on an all-zero or all-one background
    let w = if thorough { 1 } else { 16 };
    for sh in (0..128).step_by(w) {
        for x in 0..=0xffffu128 {
            if thorough && sh % 16 != 0 && x & 0x7 != 0x5 {
                continue;
            }
            v.push(x << sh);
            v.push(!(x << sh));
            v.push((x << sh) | ((1u128 << sh) - 1));
        }
    }
    v.sort();
    v.dedup();
    v
}

macro_rules! wide {
    ($c:expr, $fam:expr, $u:ident, $i:ident, $nzu:ident, $nzi:ident) => {{
        let c: &mut Ctx = $c;
        let mut n = 0u64;
        for chunk in $fam.chunks(20000) {
            if !c.take() {
                continue;
            }
            c.describe(|| format!("{}/{}/{}/{} for magnitudes {}..={}", stringify!($u), stringify!($i), stringify!($nzu), stringify!($nzi), chunk[0], chunk[chunk.len() - 1]));
            let mut b = Buffer::with_capacity(64);
            for &m in chunk {
                if m <= <$u>::MAX as u128 {
                    let want = decimal(false, m);
                    same(c, &mut b, m as $u, &want, stringify!($u));
                    n += 1;
                    c.outcome(&want);
                    if let Some(z) = std::num::$nzu::new(m as $u) {
                        same(c, &mut b, z, &want, stringify!($nzu));
                    }
                    if m <= <$i>::MAX as u128 {
                        same(c, &mut b, m as $i, &want, stringify!($i));
                        n += 1;
                        if let Some(z) = std::num::$nzi::new(m as $i) {
                            same(c, &mut b, z, &want, stringify!($nzi));
                        }
                    }
                    if m > 0 && m <= (<$i>::MAX as u128) + 1 {
                        let want = decimal(true, m);
                        let v = (m as $i).wrapping_neg();
                        same(c, &mut b, v, &want, stringify!($i));
                        n += 1;
                        same(c, &mut b, std::num::$nzi::new(v).unwrap(), &want, stringify!($nzi));
                    }
                }
            }
        }
        n
    }};
}

/// The value in context: after other text, with just enough or no room, twice in a row.
macro_rules! context {
    ($c:expr, $($t:ident)*) => {$(
        if $c.take() {
            let mut vals: Vec<$t> = vec![0, 1, 7, 9, 10, 11, 99, 100, 101, 127, <$t>::MIN, <$t>::MAX, <$t>::MIN + 1, <$t>::MAX - 1, <$t>::MAX / 2, <$t>::MAX / 10, <$t>::MIN / 10];
            vals.extend(vals.clone().into_iter().map(|v| v.wrapping_neg()));
            for (k, &v) in vals.iter().enumerate() {
                $c.describe(|| format!("{} {} in every context", stringify!($t), v));
                for &w in &vals {
                    for cap in 0..90usize {
                        let mut b = Buffer::with_capacity(cap);
                        b.push_str(&"x".repeat(k));
                        v.render(&mut b);
                        w.render(&mut b);
                        Some(v).render(&mut b);
                        let t = |v: $t| String::from_utf8(decimal((v as i128) < 0 && <$t>::MIN != 0, if <$t>::MIN == 0 { v as u128 } else { (v as i128).unsigned_abs() })).unwrap();
                        let want = format!("{}{}{}{}", "x".repeat(k), t(v), t(w), t(v));
                        let got = b.as_str().to_string();
                        $c.check(got == want, || format!("{}: {got:?}, expected {want:?}, in a buffer of capacity {cap}", stringify!($t)));
                        $c.states += 1;
                        $c.transitions += 3;
                    }
                }
            }
        }
    )*};
}

pub fn run(c: &mut Ctx) {
    let step: i128 = if c.thorough { 1 } else if c.checked_profile { 64 } else { 1 };
    let mut n = 0;
    n += all_values!(c, u8, NonZeroU8, 1);
    n += all_values!(c, i8, NonZeroI8, 1);
    n += all_values!(c, u16, NonZeroU16, 1);
    n += all_values!(c, i16, NonZeroI16, 1);
    n += all_values!(c, u32, NonZeroU32, step);
    n += all_values!(c, i32, NonZeroI32, step);
    c.count("values of the 8-, 16- and 32-bit types", n);
    let fam = families(c.thorough);
    let mut m = 0;
    m += wide!(c, fam, u64, i64, NonZeroU64, NonZeroI64);
    m += wide!(c, fam, usize, isize, NonZeroUsize, NonZeroIsize);
    m += wide!(c, fam, u128, i128, NonZeroU128, NonZeroI128);
    c.count("values of the 64-bit, pointer-sized and 128-bit types", m);
    let s = c.states;
    context!(c, u8 i8 u16 i16 u32 i32 u64 i64 usize isize u128 i128);
    c.count("values in context", c.states - s);
    c.states += n + m;
}
