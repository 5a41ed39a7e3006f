//! Bit writer and reader against a Vec<bool> reference.
use super::*;
use crate::io::bit_read::{BitRead2, BufferedBitReader};
use crate::io::bit_write::{BitWrite, BufferedBitWriter};
use crate::vassert;

pub fn table(s: &str) -> Option<Vec<Test>> {
    Some(match s {
        "P01" => vec![("append", append), ("append_via_ref", append_ref), ("write_bits_all_widths", widths)],
        "P02" => vec![("cursor", cursor), ("reset", reset)],
        "P03" => vec![("read_ops", read_ops), ("read_via_ref", read_ref), ("past_end", past_end)],
        "P04" => vec![("roundtrip", roundtrip)],
        _ => return None,
    })
}

#[derive(Debug, Clone)]
enum W {
    Bit(bool),
    Byte(u8),
    Bits(u64, u8),
    Cur(usize),
    Reset,
}
fn wops(g: &mut G, n: usize, cursor: bool) -> Vec<W> {
    (0..n)
        .map(|_| match g.below(if cursor { 12 } else { 9 }) {
            0..=1 => W::Bit(g.bool()),
            2..=3 => W::Byte(g.word() as u8),
            4..=8 => W::Bits(g.word(), g.range(0, 64) as u8),
            11 if g.chance(3) => W::Reset,
            _ => W::Cur(if g.chance(6) { g.us(6000) } else { g.us(200) }),
        })
        .collect()
}
fn apply_ref(m: &mut Vec<bool>, w: &W) {
    match w {
        W::Bit(b) => m.push(*b),
        W::Byte(b) => (0..8).rev().for_each(|i| m.push(b >> i & 1 == 1)),
        W::Bits(v, n) => (0..*n).rev().for_each(|i| m.push(v >> i & 1 == 1)),
        W::Cur(n) => m.resize(*n, false),
        W::Reset => m.clear(),
    }
}
fn apply<T: BitWrite>(mut w: T, op: &W) {
    match op {
        W::Bit(b) => w.write_bit(*b),
        W::Byte(b) => w.write_byte(*b),
        W::Bits(v, n) => w.write_bits(*v, *n as u32),
        W::Cur(n) => w.set_cursor_at_in_bit(*n),
        W::Reset => w.reset(),
    }
}
pub fn pack(m: &[bool]) -> Vec<u8> {
    let mut v = vec![0u8; m.len().div_ceil(8)];
    for (i, b) in m.iter().enumerate() {
        if *b {
            v[i / 8] |= 0x80 >> (i % 8);
        }
    }
    v
}
fn same<T: BitWrite>(w: &T, m: &[bool]) -> Result<(), String> {
    eq("number of bits written", w.number_of_bits_written(), m.len())?;
    eq("bytes", w.as_slice().to_vec(), pack(m))
}
fn fresh(g: &mut G) -> BufferedBitWriter {
    match g.below(4) {
        0 => BufferedBitWriter::new(),
        1 => BufferedBitWriter::with_capacity(g.us(64)),
        2 => BufferedBitWriter::default(),
        _ => BufferedBitWriter::from_vec({
            let n = g.us(20);
            g.bytes(n)
        }),
    }
}
fn run_w(g: &mut G, cursor: bool, by_ref: bool) -> Result<(), String> {
    let n = if g.chance(40) { g.len(400) } else { g.len(40) };
    let ops = wops(g, n, cursor);
    g.note = format!("{ops:?}");
    let mut w = fresh(g);
    let mut m = vec![];
    same(&w, &m)?;
    for (i, op) in ops.iter().enumerate() {
        if by_ref {
            let r = &mut w;
            apply(r, op);
        } else {
            match op {
                W::Bit(b) => w.write_bit(*b),
                W::Byte(b) => w.write_byte(*b),
                W::Bits(v, n) => w.write_bits(*v, *n as u32),
                W::Cur(n) => w.set_cursor_at_in_bit(*n),
                W::Reset => w.reset(),
            }
        }
        apply_ref(&mut m, op);
        same(&w, &m).map_err(|e| format!("after op {i} {op:?}: {e}"))?;
        if by_ref {
            same(&&mut w, &m).map_err(|e| format!("through &mut after op {i} {op:?}: {e}"))?;
        }
    }
    let want = pack(&m);
    eq("close", w.close().to_vec(), want)
}
fn append(g: &mut G) -> Result<(), String> {
    run_w(g, false, false)
}
fn append_ref(g: &mut G) -> Result<(), String> {
    run_w(g, false, true)
}
/// every start offset and width, one word
fn widths(g: &mut G) -> Result<(), String> {
    let v = g.word();
    let lead = g.us(9);
    let fill = g.bool();
    g.note = format!("lead {lead} x {fill}, then {v:#x}");
    for n in 0..=64u8 {
        let mut w = BufferedBitWriter::new();
        let mut m = vec![];
        for _ in 0..lead {
            w.write_bit(fill);
            m.push(fill);
        }
        w.write_bits(v, n as u32);
        apply_ref(&mut m, &W::Bits(v, n));
        same(&w, &m).map_err(|e| format!("write_bits({v:#x}, {n}) at offset {lead}: {e}"))?;
        w.write_bits(!v, n as u32);
        apply_ref(&mut m, &W::Bits(!v, n));
        same(&w, &m).map_err(|e| format!("second write_bits({:#x}, {n}) at offset {lead}: {e}", !v))?;
    }
    Ok(())
}
fn cursor(g: &mut G) -> Result<(), String> {
    let r = g.bool();
    run_w(g, true, r)
}
fn reset(g: &mut G) -> Result<(), String> {
    let n = g.us(20);
    let a = wops(g, n, true);
    let n = g.us(20);
    let b = wops(g, n, false);
    g.note = format!("{a:?} reset {b:?}");
    let mut w = fresh(g);
    for o in &a {
        apply(&mut w, o);
    }
    w.reset();
    let mut m = vec![];
    same(&w, &m)?;
    for o in &b {
        apply(&mut w, o);
        apply_ref(&mut m, o);
        same(&w, &m)?;
    }
    Ok(())
}

#[derive(Debug, Clone)]
enum R {
    Bit,
    Byte,
    Bits(u8),
    Peek(u8),
    Skip(usize),
    Reset,
}
fn rops(g: &mut G, n: usize) -> Vec<R> {
    (0..n)
        .map(|_| match g.below(12) {
            0..=1 => R::Bit,
            2..=3 => R::Byte,
            4..=6 => R::Bits(if g.chance(20) { g.u64() as u8 } else { g.range(0, 64) as u8 }),
            7..=9 => R::Peek(if g.chance(20) { g.u64() as u8 } else { g.range(0, 64) as u8 }),
            10 if g.chance(3) => R::Reset,
            _ => R::Skip(if g.chance(8) { g.us(2000) } else { g.us(40) }),
        })
        .collect()
}
fn getbit(d: &[u8], i: usize) -> bool {
    d[i / 8] >> (7 - i % 8) & 1 == 1
}
fn getbits(d: &[u8], p: usize, n: usize) -> Option<u64> {
    if n == 0 {
        return Some(0);
    }
    if p + n > d.len() * 8 {
        return None;
    }
    let mut v = 0u64;
    for i in 0..n {
        v = (v << 1) | getbit(d, p + i) as u64;
    }
    Some(v)
}
fn step<T: BitRead2>(r: &mut T, d: &[u8], p: &mut usize, op: &R) -> Result<(), String> {
    match op {
        R::Bit => {
            let want = (*p < d.len() * 8).then(|| getbit(d, *p));
            if want.is_some() {
                *p += 1;
            }
            eq("read_bit", r.read_bit(), want)
        }
        R::Byte => {
            let want = getbits(d, *p, 8).map(|x| x as u8);
            if want.is_some() {
                *p += 8;
            }
            eq("read_byte", r.read_byte(), want)
        }
        R::Bits(n) => {
            let want = getbits(d, *p, *n as usize);
            if want.is_some() {
                *p += *n as usize;
            }
            eq("read_bits", r.read_bits(*n), want)
        }
        R::Peek(n) => eq("peak_bits", r.peak_bits(*n), getbits(d, *p, *n as usize)),
        _ => Ok(()),
    }
}
fn run_r(g: &mut G, by_ref: bool, tail: bool) -> Result<(), String> {
    let n = if tail { g.us(12) } else if g.chance(20) { g.len(600) } else { g.len(60) };
    let d = g.bytes(n);
    let k = g.range(1, 30);
    let mut ops = rops(g, k);
    if tail {
        ops.insert(0, R::Skip((n * 8).saturating_sub(g.us(20)) + g.us(12)));
    }
    g.note = format!("data {d:02x?} ops {ops:?}");
    let mut r = BufferedBitReader::new(d.clone());
    let mut p = 0;
    for (i, op) in ops.iter().enumerate() {
        let e = match op {
            R::Skip(n) => {
                r.skip_bits(*n);
                p += n;
                Ok(())
            }
            R::Reset => {
                r.reset();
                p = 0;
                Ok(())
            }
            _ if by_ref => step(&mut &mut r, &d, &mut p, op),
            _ => step(&mut r, &d, &mut p, op),
        };
        e.map_err(|e| format!("op {i} {op:?} at bit {p} of {}: {e}", d.len() * 8))?;
    }
    Ok(())
}
fn read_ops(g: &mut G) -> Result<(), String> {
    run_r(g, false, false)
}
fn read_ref(g: &mut G) -> Result<(), String> {
    run_r(g, true, false)
}
fn past_end(g: &mut G) -> Result<(), String> {
    run_r(g, false, true)
}

fn roundtrip(g: &mut G) -> Result<(), String> {
    let n = if g.chance(40) { g.len(400) + 1 } else { g.len(40) + 1 };
    let ops = wops(g, n, false);
    g.note = format!("{ops:?}");
    let mut w = fresh(g);
    for o in &ops {
        apply(&mut w, o);
    }
    let total = w.number_of_bits_written();
    let bytes = w.as_slice().to_vec();
    let mut r = BufferedBitReader::new(bytes.clone());
    for (i, o) in ops.iter().enumerate() {
        match o {
            W::Bit(b) => eq("bit", r.read_bit(), Some(*b)),
            W::Byte(b) => eq("byte", r.read_byte(), Some(*b)),
            W::Bits(v, n) => {
                let want = if *n == 64 { *v } else { v & ((1u64 << n) - 1) };
                if g.bool() {
                    eq("peeked word", r.peak_bits(*n), Some(want)).and(eq("word", r.read_bits(*n), Some(want)))
                } else {
                    eq("word", r.read_bits(*n), Some(want))
                }
            }
            _ => Ok(()),
        }
        .map_err(|e| format!("item {i} {o:?}: {e}"))?;
    }
    let pad = bytes.len() * 8 - total;
    vassert!(pad < 8, "{pad} padding bits");
    for _ in 0..pad {
        eq("padding", r.read_bit(), Some(false))?;
    }
    eq("end of stream", r.read_bit(), None)
}
