//! Packed bits (least significant bit first), fixed-point conversion, byte flip, ELF decimal helpers.
use super::*;
use crate::compression_common::buff::bit_packing::BitPack;
use crate::compression_common::buff::{flip, precision_bound};
use crate::compression_common::elf;
use crate::vassert;

pub fn table(s: &str) -> Option<Vec<Test>> {
    Some(match s {
        "P05" => vec![("slice_writer", slice_writer), ("vec_writer", vec_writer)],
        "P06" => vec![("slice_reader", slice_reader), ("pack_roundtrip", pack_roundtrip)],
        "P07" => vec![("fixed", fixed), ("monotone", monotone), ("flip", flips), ("precision_map", precision_map)],
        "P08" => vec![("f_alpha", f_alpha), ("ten_neg", ten_neg), ("sp", sp), ("analyse", analyse), ("restore", restore)],
        _ => return None,
    })
}

fn lget(b: &[u8], i: usize) -> bool {
    b[i / 8] >> (i % 8) & 1 == 1
}
fn lor(b: &mut [u8], i: usize, v: bool) {
    if v {
        b[i / 8] |= 1 << (i % 8);
    }
}
fn slice_writer(g: &mut G) -> Result<(), String> {
    let n = g.len(40);
    let mut real = if g.bool() { vec![0u8; n] } else { g.bytes(n) };
    let mut m = real.clone();
    let mut pos = 0usize;
    let k = g.len(60);
    let ops: Vec<(bool, u32, usize)> = (0..k)
        .map(|_| if g.bool() { (true, g.word() as u32, if g.chance(12) { g.range(33, 200) } else { g.range(1, 32) }) } else { (false, g.word() as u32, g.range(1, 8)) })
        .collect();
    g.note = format!("buffer={real:?} ops={ops:?}");
    {
        let mut w = BitPack::<&mut [u8]>::new(&mut real[..]);
        for (i, (wide, v, bits)) in ops.iter().enumerate() {
            let r = if *wide { w.write(*v, *bits) } else { w.write_bits(*v, *bits) };
            let fits = *bits <= 32 && pos + *bits <= 8 * n;
            eq(&format!("op {i} result"), r, if fits { Ok(()) } else { Err(*bits) })?;
            if fits {
                for q in 0..*bits {
                    lor(&mut m, pos + q, v >> q & 1 == 1);
                }
                pos += bits;
            }
            eq(&format!("op {i} position"), w.sum_bits(), pos)?;
        }
    }
    eq("buffer", real, m)
}
fn vec_writer(g: &mut G) -> Result<(), String> {
    let mut w = if g.bool() { BitPack::<Vec<u8>>::with_capacity(g.us(100)) } else { BitPack::<Vec<u8>>::default() };
    let mut m: Vec<u8> = vec![];
    let mut pos = 0usize;
    let k = g.len(80);
    let mut log = vec![];
    // the bytes written with write_byte come in one block that ends with finish_write_byte, as the callers do it
    let mut i = 0;
    while i < k {
        i += 1;
        if g.chance(6) {
            for _ in 0..g.us(5) {
                let b = g.word() as u8;
                w.write_byte(b);
                m.push(b);
                log.push(format!("byte {b}"));
            }
            w.finish_write_byte();
            pos = m.len() * 8;
            m.push(0);
            log.push("finish".into());
        } else {
            let (wide, v, bits) = if g.bool() { (true, g.word() as u32, if g.chance(12) { g.range(33, 100) } else { g.range(1, 32) }) } else { (false, g.word() as u32, g.range(1, 8)) };
            log.push(format!("write wide={wide} {v} {bits}"));
            g.note = format!("{log:?}");
            let r = if wide { w.write(v, bits) } else { w.write_bits(v, bits) };
            if bits > 32 {
                eq("too wide", r, Err(bits))?;
                // the buffer may already have grown by zero bytes; bits and position must not change
                let img = w.clone().into_vec();
                vassert!(img.len() >= m.len() && img[..m.len()] == m[..] && img[m.len()..].iter().all(|b| *b == 0), "a refused write changed the buffer: {img:?} vs {m:?}");
                m = img;
            } else {
                eq("result", r, Ok(()))?;
                while m.len() * 8 < pos + bits {
                    m.push(0);
                }
                for q in 0..bits {
                    lor(&mut m, pos + q, v >> q & 1 == 1);
                }
                pos += bits;
                let img = w.clone().into_vec();
                vassert!(img.len() >= m.len(), "buffer too short: {} < {}", img.len(), m.len());
                vassert!(img[m.len()..].iter().all(|b| *b == 0), "junk after the end");
                eq("prefix", img[..m.len()].to_vec(), m.clone())?;
                m = img;
            }
            eq("position", w.sum_bits(), pos)?;
        }
    }
    g.note = format!("{log:?}");
    eq("image", w.into_vec(), m)
}
fn slice_reader(g: &mut G) -> Result<(), String> {
    let n = g.len(60);
    let b = g.bytes(n);
    let mut r = BitPack::<&[u8]>::new(&b[..]);
    let mut pos = 0usize;
    let k = g.len(80);
    let mut log = vec![];
    for _ in 0..k {
        let op = g.below(7);
        let bits = match op {
            0 => if g.chance(12) { g.range(33, 80) } else { g.range(1, 32) },
            1 => g.range(1, 8),
            2 => 32,
            3 => 8,
            4 => 8 * g.us(6),
            5 => g.us(70),
            _ => 8 * g.us(4),
        };
        log.push(format!("{op}:{bits}"));
        g.note = format!("buffer={b:?} ops={log:?}");
        let fits = pos + bits <= 8 * n;
        let val = |k: usize| (0..k).fold(0u64, |a, i| a | (lget(&b, pos + i) as u64) << i);
        match op {
            0 => {
                let ok = bits <= 32 && fits;
                let x = r.read(bits);
                eq("read", x, if ok { Ok(val(bits) as u32) } else { Err(bits) })?;
                if ok { pos += bits }
            }
            1 => {
                let x = r.read_bits(bits);
                eq("read_bits", x, if fits { Ok(val(bits) as u8) } else { Err(bits) })?;
                if fits { pos += bits }
            }
            2 => {
                // byte-wise reads ignore the bit position inside the byte
                let x = r.read_u32();
                if fits {
                    let c = pos / 8;
                    eq("read_u32", x, Ok(u32::from_le_bytes(b[c..c + 4].try_into().unwrap())))?;
                    pos += 32;
                } else {
                    eq("read_u32", x, Err(32))?;
                }
            }
            3 => {
                if pos % 8 == 0 && fits {
                    eq("read_byte", r.read_byte(), Ok(b[pos / 8]))?;
                    pos += 8;
                }
            }
            4 => {
                if pos % 8 == 0 && fits {
                    eq("read_n_byte", r.read_n_byte(bits / 8).map(|x| x.to_vec()), Ok(b[pos / 8..pos / 8 + bits / 8].to_vec()))?;
                    pos += bits;
                }
            }
            5 => {
                let x = r.skip(bits);
                let ok = bits == 0 || fits;
                eq("skip", x, if ok { Ok(()) } else { Err(bits) })?;
                if ok { pos += bits }
            }
            _ => {
                if fits {
                    eq("skip_n_byte", r.skip_n_byte(bits / 8), Ok(()))?;
                    pos += bits;
                }
            }
        }
        eq("position", r.sum_bits(), pos)?;
    }
    Ok(())
}
fn pack_roundtrip(g: &mut G) -> Result<(), String> {
    let k = g.len(200);
    let narrow = g.bool();
    let items: Vec<(u32, usize)> = (0..k).map(|_| (g.word() as u32, if narrow { g.range(1, 8) } else { g.range(1, 32) })).collect();
    let lead = g.bytes(g.size as usize % 5);
    g.note = format!("bytes={lead:?} items={items:?}");
    let mut w = BitPack::<Vec<u8>>::default();
    if !lead.is_empty() {
        for x in &lead {
            w.write_byte(*x);
        }
        w.finish_write_byte();
    }
    for (v, n) in &items {
        if narrow { w.write_bits(*v, *n) } else { w.write(*v, *n) }.map_err(|e| format!("write refused {e}"))?;
    }
    let img = w.into_vec();
    let mut r = BitPack::<&[u8]>::new(&img[..]);
    if g.bool() {
        for (i, x) in lead.iter().enumerate() {
            eq(&format!("lead byte {i}"), r.read_byte(), Ok(*x))?;
        }
    } else {
        eq("lead bytes", r.read_n_byte(lead.len()).map(|x| x.to_vec()), Ok(lead.clone()))?;
    }
    for (i, (v, n)) in items.iter().enumerate() {
        let want = if *n == 32 { *v } else { v & ((1u32 << n) - 1) };
        if g.chance(5) {
            eq(&format!("skip {i}"), r.skip(*n), Ok(()))?;
        } else if narrow && g.bool() {
            eq(&format!("item {i}"), r.read_bits(*n), Ok(want as u8))?;
        } else {
            eq(&format!("item {i}"), r.read(*n), Ok(want))?;
        }
    }
    Ok(())
}

/// |v| * 2^f rounded toward zero, by exact integer arithmetic on the decoded double
fn ref_fixed(v: f64, f: i32) -> Option<i64> {
    if v == 0.0 {
        return Some(0);
    }
    let b = v.to_bits();
    let e = (b >> 52 & 0x7ff) as i32;
    let (m, e) = if e == 0 { (b & 0xf_ffff_ffff_ffff, -1074) } else { (b & 0xf_ffff_ffff_ffff | 1 << 52, e - 1075) };
    let s = e + f;
    let q = if s >= 0 {
        if s > 10 { return None }
        (m as u128) << s
    } else if s < -120 { 0 } else { (m as u128) >> -s };
    if q >= 1u128 << 63 {
        return None;
    }
    Some(if v < 0.0 { -(q as i64) } else { q as i64 })
}
fn gen_double(g: &mut G) -> f64 {
    let s = if g.bool() { -1.0 } else { 1.0 };
    s * match g.below(8) {
        0 => 0.0,
        1 => g.below(100000) as f64 / 1000.0,
        2 => (g.u64() >> g.below(64)) as f64,
        3 => 2f64.powi(g.below(120) as i32 - 62),
        4 => f64::from_bits(2f64.powi(g.below(120) as i32 - 62).to_bits().wrapping_sub(1)),
        5 => f64::from_bits((1023 - 62 + g.below(124)) << 52 | g.word() >> 12),
        6 => f64::from_bits(g.word() >> 12),
        _ => g.below(1 << 30) as f64 / 1024.0,
    }
}
const PM: [u64; 13] = [0, 5, 8, 11, 15, 18, 21, 25, 28, 31, 35, 38, 50];
fn gen_f(g: &mut G) -> i32 {
    if g.chance(3) { g.below(60) as i32 } else { precision_bound::PRECISION_MAP[g.us(13)] as i32 }
}
fn fixed(g: &mut G) -> Result<(), String> {
    let f = gen_f(g);
    let v = gen_double(g);
    g.note = format!("v={v:?} bits={:#x} frac={f}", v.to_bits());
    if let Some(want) = ref_fixed(v, f) {
        eq("fixed point", precision_bound::into_fixed_representation_with_fractional_part_bits_length(v, f), want)?;
        eq("negated", precision_bound::into_fixed_representation_with_fractional_part_bits_length(-v, f), -want)?;
    }
    Ok(())
}
fn monotone(g: &mut G) -> Result<(), String> {
    let f = gen_f(g);
    let a = gen_double(g);
    let b = if g.bool() { gen_double(g) } else { f64::from_bits(a.to_bits().wrapping_add(g.below(5)).wrapping_sub(2)) };
    g.note = format!("a={a:?} b={b:?} frac={f}");
    if !b.is_finite() || ref_fixed(a, f).is_none() || ref_fixed(b, f).is_none() {
        return Ok(());
    }
    let (x, y) = (
        precision_bound::into_fixed_representation_with_fractional_part_bits_length(a, f),
        precision_bound::into_fixed_representation_with_fractional_part_bits_length(b, f),
    );
    vassert!(if a <= b { x <= y } else { x >= y }, "order lost: {a:?} -> {x}, {b:?} -> {y}");
    Ok(())
}
fn flips(g: &mut G) -> Result<(), String> {
    let x = g.u64() as u8;
    let y = g.u64() as u8;
    g.note = format!("{x} {y}");
    eq("flip twice", flip(flip(x)), x)?;
    eq("flip", flip(x) as i32, x as i8 as i32 + 128)?;
    vassert!(((x as i8) < (y as i8)) == (flip(x) < flip(y)), "order");
    Ok(())
}
fn precision_map(g: &mut G) -> Result<(), String> {
    let d = g.us(13);
    g.note = format!("digits={d}");
    let bits = precision_bound::PRECISION_MAP[d];
    vassert!(d == 0 || (1u128 << bits) > 2 * 10u128.pow(d as u32), "{bits} bits cannot tell values with {d} decimals apart");
    vassert!(bits < 53, "{bits} bits leave no room");
    let _ = PM;
    Ok(())
}

fn f_alpha(g: &mut G) -> Result<(), String> {
    let a = if g.bool() { g.below(21) as u32 } else { g.below(340) as u32 };
    g.note = format!("alpha={a}");
    let r = elf::get_f_alpha(a);
    // least r with 2^r >= 10^a
    let mut want = 0;
    // 10^a = 5^a * 2^a, compare with big integers
    let mut p: Vec<u32> = vec![1];
    for _ in 0..a {
        let mut c = 0u64;
        for x in p.iter_mut() {
            let t = *x as u64 * 10 + c;
            *x = t as u32;
            c = t >> 32;
        }
        if c > 0 {
            p.push(c as u32);
        }
    }
    let bits = 32 * (p.len() as u32 - 1) + (32 - p.last().unwrap().leading_zeros());
    if a > 0 {
        want = bits; // 10^a is no power of two
    }
    eq("get_f_alpha", r, want)
}
fn ten_neg(g: &mut G) -> Result<(), String> {
    let i = if g.bool() { g.below(22) as u32 } else { g.below(324) as u32 };
    g.note = format!("i={i}");
    eq("get_10i_n", elf::get_10i_n(i).to_bits(), format!("1e-{i}").parse::<f64>().unwrap().to_bits())
}
/// floor(log10(v)) from the shortest exact decimal printing
fn ref_sp(v: f64) -> i32 {
    let s = format!("{v:e}");
    s.split('e').nth(1).unwrap().parse().unwrap()
}
/// a double that is the nearest one to a decimal of n significant digits and a scale
fn decimal(g: &mut G) -> (f64, u64, i32) {
    let n = g.range(1, 15) as u32;
    let mut m = 10u64.pow(n - 1) + g.below(9 * 10u64.pow(n - 1));
    if g.chance(6) {
        m = 10u64.pow(n) - 1 - g.below(3).min(10u64.pow(n) - 2);
    }
    if g.chance(8) {
        m = 10u64.pow(n - 1);
    }
    while m % 10 == 0 && m > 0 {
        m /= 10;
    }
    let m = m.max(1);
    let k = match g.below(4) {
        0 => g.below(4) as i32,
        1 => g.below(10) as i32,
        2 => g.below(21) as i32,
        _ => g.below(16) as i32 - 4,
    };
    (format!("{m}e{}", -k).parse().unwrap(), m, k)
}
fn sp(g: &mut G) -> Result<(), String> {
    let v = match g.below(3) {
        0 => f64::from_bits((1023 - 30 + g.below(60)) << 52 | g.word() >> 12),
        1 => decimal(g).0,
        _ => {
            // next to a power of ten inside the tables
            let t: f64 = format!("1e{}", g.below(19) as i32 - 10).parse().unwrap();
            f64::from_bits(t.to_bits().wrapping_add(g.below(3)).wrapping_sub(1))
        }
    };
    g.note = format!("v={v:?}");
    if !(1e-10..1e9).contains(&v) {
        return Ok(());
    }
    eq("get_sp", elf::get_sp(v), ref_sp(v))
}
fn analyse(g: &mut G) -> Result<(), String> {
    let (v, m, k) = decimal(g);
    let last = g.pick(&[i32::MAX, 0, 1, 5, 15, 16, 17]);
    let s = if g.bool() { 1.0 } else { -1.0 };
    g.note = format!("v={v:?} m={m} k={k} last={last}");
    if !(1e-10..1e9).contains(&v) || k > 20 {
        return Ok(());
    }
    let digits = m.to_string().len() as i32;
    if digits > 13 {
        return Ok(());
    }
    let (alpha, beta_star) = elf::get_alpha_and_beta_star(s * v, last);
    // any alpha that really reproduces v is fine: v is an exact multiple of 10^-alpha in decimal
    let pow = m == 1 && k > 0;
    if pow {
        eq("beta* of a negative power of ten", beta_star, 0)?;
    } else {
        vassert!(beta_star > 0, "beta* {beta_star}");
        let sp = ref_sp(v);
        eq("alpha", alpha as i32, beta_star - sp - 1)?;
        vassert!(beta_star == 17 || alpha as i32 >= k, "alpha {alpha} cuts off decimals of {m}e-{k}");
    }
    Ok(())
}
fn restore(g: &mut G) -> Result<(), String> {
    let (v, m, k) = decimal(g);
    let last = g.pick(&[i32::MAX, 0, 1, 5, 15]);
    let v = if g.bool() { v } else { -v };
    g.note = format!("v={v:?} m={m} k={k} last={last}");
    if !(1e-10..1e15).contains(&v.abs()) {
        return Ok(());
    }
    let (alpha, beta_star) = elf::get_alpha_and_beta_star(v, last);
    if beta_star >= 16 {
        return Ok(());
    }
    let e = (v.to_bits() >> 52 & 0x7ff) as i32 - 1023;
    let erase = 52 - (elf::get_f_alpha(alpha) as i32 + e);
    if erase <= 4 {
        return Ok(());
    }
    let cut = f64::from_bits(v.to_bits() & u64::MAX << erase);
    if cut == v {
        return Ok(());
    }
    let sp = elf::get_sp(cut.abs());
    let back = if beta_star == 0 {
        elf::get_10i_n((-sp - 1) as u32) * v.signum()
    } else {
        elf::round_up(cut, (beta_star - sp - 1) as u32)
    };
    eq("restored", back.to_bits(), v.to_bits())
}
