//! C09: floats. f32: all exponents with mantissa families and a stride (thorough: every bit
//! pattern); f64: every exponent with mantissa families, and short decimals. Oracle: the text
//! must read back (correctly rounding parser) as the same bits, use at most as many significant
//! digits as the shortest representation has, and look like a non-integer literal.
use crate::kit::run::Ctx;
use laby_common::internal::Buffer;
use laby_common::Render;
use std::io::Write;

/// Number of significant digits, or None if the text is not a decimal number.
#[inline]
fn digits(t: &[u8]) -> Option<(u32, bool)> {
    let mut i = 0;
    let mut frac = false;
    let (mut n, mut zeros, mut started, mut any) = (0u32, 0u32, false, false);
    if t.first() == Some(&b'-') {
        i += 1;
    }
    while i < t.len() {
        match t[i] {
            b'.' if !frac => frac = true,
            b'0' => {
                any = true;
                if started {
                    zeros += 1;
                }
            }
            b'1'..=b'9' => {
                any = true;
                n += zeros + 1;
                zeros = 0;
                started = true;
            }
            b'e' | b'E' => {
                let mut j = i + 1;
                if matches!(t.get(j), Some(b'+') | Some(b'-')) {
                    j += 1;
                }
                if j >= t.len() || !t[j..].iter().all(|c| c.is_ascii_digit()) || !any {
                    return None;
                }
                return Some((n, true));
            }
            _ => return None,
        }
        i += 1;
    }
    if any { Some((n, frac)) } else { None }
}

macro_rules! checker {
    ($name:ident, $t:ident, $u:ident, $min_digits:expr) => {
        #[inline]
        fn $name(c: &mut Ctx, b: &mut Buffer, tmp: &mut Vec<u8>, bits: $u) {
            let v = <$t>::from_bits(bits);
            c.transitions += 2; // render, read back
            b.clear();
            v.render(b);
            let s = b.as_str();
            let what = if v.is_nan() {
                if s == "NaN" { return } else { "expected NaN" }
            } else if v.is_infinite() {
                if s == (if v > 0.0 { "inf" } else { "-inf" }) { return } else { "expected an infinity" }
            } else {
                match digits(s.as_bytes()) {
                    None => "not a decimal number",
                    Some((_, false)) => "reads as an integer literal",
                    Some((n, true)) => match s.parse::<$t>() {
                        Ok(w) if w.to_bits() == bits => {
                            if n <= $min_digits {
                                return;
                            }
                            tmp.clear();
                            write!(tmp, "{:e}", v).unwrap();
                            let m = digits(tmp).map_or(0, |x| x.0);
                            if n <= m { return } else { "more significant digits than necessary" }
                        }
                        _ => "does not read back as the same value",
                    },
                }
            };
            let s = s.to_string();
            c.fail(format!("{} with bits {bits:#x} ({v:e}) rendered as {s:?}: {what}", stringify!($t)));
        }
    };
}

// A value may need one digit or more; digit counts above 1 are compared with the shortest form.
checker!(check32, f32, u32, 1);
checker!(check64, f64, u64, 1);

fn mantissas(bits: u32, thorough: bool) -> Vec<u64> {
    let m = (1u64 << bits) - 1;
    let mut v = vec![];
    let low = if thorough { 4096 } else { 256 };
    for x in 0..low {
        v.push(x);
        v.push(m - x);
        v.push((m >> 1) + x);
        v.push((m >> 1) - x);
    }
    for i in 0..bits {
        for j in 0..=i {
            v.push(1 << i | 1 << j);
            v.push(m & !(1 << i | 1 << j));
            v.push((1 << (i + 1)) - (1 << j));
        }
    }
    let top = bits.min(if thorough { 12 } else { 10 });
    for x in 0..1u64 << top {
        v.push(x << (bits - top));
        v.push(x << (bits - top) | 1);
    }
    let n = if thorough { 60000 } else { 3000u64 };
    for k in 0..n {
        v.push((k as u128 * (m as u128) / n as u128) as u64);
        v.push((k.wrapping_mul(0x9E37_79B9_7F4A_7C15)) & m);
    }
    v.sort();
    v.dedup();
    v
}

pub fn run(c: &mut Ctx) {
    let thorough = c.thorough;
    let mut b = Buffer::with_capacity(64);
    let mut tmp = Vec::with_capacity(64);

    // f32
    let mut n = 0u64;
    let step: u32 = if thorough && !c.checked_profile { 1 } else if c.checked_profile { 1031 } else { 31 };
    for hi in 0..4096u32 {
        if !c.take() {
            continue;
        }
        let (a, z) = (hi << 20, hi << 20 | 0xfffff);
        c.describe(|| format!("f32 bit patterns {a:#x}..={z:#x} in steps of {step}"));
        let mut x = a + (step - a % step) % step;
        loop {
            if x > z {
                break;
            }
            check32(c, &mut b, &mut tmp, x);
            n += 1;
            if n % 4099 == 0 {
                c.outcome(b.as_str().as_bytes());
            }
            match x.checked_add(step) {
                Some(y) => x = y,
                None => break,
            }
        }
    }
    let fam = mantissas(23, thorough);
    for e in 0..512u32 {
        if !c.take() {
            continue;
        }
        c.describe(|| format!("f32 with sign and exponent {e:#x}, {} mantissas", fam.len()));
        for &m in &fam {
            check32(c, &mut b, &mut tmp, e << 23 | m as u32);
            c.outcome(b.as_str().as_bytes());
        }
        n += fam.len() as u64;
    }
    c.count("f32 values", n);

    // f64
    let mut k = 0u64;
    let fam = mantissas(52, thorough);
    for e in 0..4096u64 {
        if !c.take() {
            continue;
        }
        c.describe(|| format!("f64 with sign and exponent {e:#x}, {} mantissas", fam.len()));
        for (i, &m) in fam.iter().enumerate() {
            check64(c, &mut b, &mut tmp, e << 52 | m);
            if i % 64 == 0 {
                c.outcome(b.as_str().as_bytes());
            }
        }
        k += fam.len() as u64;
    }
    // short decimals and their neighbours
    let dmax = if thorough { 100_000u64 } else { 4_000 };
    for ex in -330i32..=310 {
        if !c.take() {
            continue;
        }
        c.describe(|| format!("f64 and f32 values nearest to d*10^{ex}, d up to {dmax}, and their neighbours"));
        for d in 1..=dmax {
            tmp.clear();
            write!(tmp, "{d}e{ex}").unwrap();
            let t = std::str::from_utf8(&tmp).unwrap();
            let v: f64 = t.parse().unwrap();
            let w: f32 = t.parse().unwrap();
            for x in [v.to_bits().wrapping_sub(1), v.to_bits(), v.to_bits() + 1] {
                check64(c, &mut b, &mut tmp, x);
                k += 1;
            }
            if w != 0.0 && w.is_finite() {
                for x in [w.to_bits() - 1, w.to_bits(), w.to_bits() + 1] {
                    check32(c, &mut b, &mut tmp, x);
                    n += 1;
                }
            }
        }
    }
    // integers around powers of two and ten
    for p in 0..64u32 {
        if !c.take() {
            continue;
        }
        c.describe(|| format!("integral f64 and f32 values around 2^{p}"));
        let near = |x: u128| (0..500u128).flat_map(move |d| [x.saturating_sub(d), x + d]);
        for i in near(1u128 << p).chain(near(10u128.pow(p.min(37)))) {
            for s in [1.0f64, -1.0, 0.5, 0.25, 1.5] {
                check64(c, &mut b, &mut tmp, (i as f64 * s).to_bits());
                check32(c, &mut b, &mut tmp, (i as f32 * s as f32).to_bits());
                k += 1;
                n += 1;
            }
        }
    }
    c.count("f64 values", k);

    // in context: after other text, with every amount of room
    if c.take() {
        let mut s = 0;
        let vals = [0.0f64, -0.0, 1.0, -1.5, 0.1, 1e21, 1e-7, 123456789.125, 5e-324, -1.7976931348623157e308, 2.2250738585072014e-308, f64::NAN, f64::INFINITY, f64::NEG_INFINITY];
        c.describe(|| "extreme values in buffers of every small capacity".into());
        let alone = |v: f64| {
            let mut b = Buffer::with_capacity(200);
            v.render(&mut b);
            b.into_string()
        };
        let alone32 = |v: f32| {
            let mut b = Buffer::with_capacity(200);
            v.render(&mut b);
            b.into_string()
        };
        for cap in 0..100 {
            for pre in 0..60usize {
                for &v in &vals {
                    let mut b = Buffer::with_capacity(cap);
                    b.push_str(&"y".repeat(pre));
                    v.render(&mut b);
                    (v as f32).render(&mut b);
                    let want = format!("{}{}{}", "y".repeat(pre), alone(v), alone32(v as f32));
                    c.check(b.as_str() == want, || format!("{:?}, expected {want:?}, in a buffer of capacity {cap}", b.as_str()));
                    s += 1;
                    c.transitions += 2;
                }
            }
        }
        c.count("values in context", s);
        c.states += s;
    }
    c.states += n + k;
}
