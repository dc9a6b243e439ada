//! A protobuf wire-format writer and reader, independent of the one under test.
pub fn varint(mut v: u64) -> Vec<u8> {
    let mut o = vec![];
    loop {
        let b = (v & 0x7f) as u8;
        v >>= 7;
        if v == 0 {
            o.push(b);
            return o;
        }
        o.push(b | 0x80);
    }
}
pub fn vi(field: u32, v: u64) -> Vec<u8> {
    let mut o = varint((field << 3) as u64);
    o.extend(varint(v));
    o
}
pub fn ld(field: u32, b: &[u8]) -> Vec<u8> {
    let mut o = varint((field << 3 | 2) as u64);
    o.extend(varint(b.len() as u64));
    o.extend_from_slice(b);
    o
}
pub fn cat(parts: &[Vec<u8>]) -> Vec<u8> {
    parts.concat()
}
#[derive(Clone, Debug, PartialEq)]
pub enum F {
    V(u64),
    B(Vec<u8>),
    I64([u8; 8]),
    I32([u8; 4]),
    /// a group, skipped
    G,
}
fn rd_varint(b: &[u8], i: &mut usize) -> Option<u64> {
    let mut v = 0u64;
    for k in 0..10 {
        let x = *b.get(*i)?;
        *i += 1;
        if k == 9 && x > 1 {
            return None;
        }
        v |= ((x & 0x7f) as u64) << (7 * k);
        if x < 0x80 {
            return Some(v);
        }
    }
    None
}
/// The fields of a message in order, or None when it is not well formed (groups are skipped).
pub fn parse(b: &[u8]) -> Option<Vec<(u32, F)>> {
    let mut i = 0;
    let mut o = vec![];
    let mut open: Vec<u32> = vec![];
    while i < b.len() {
        let k = rd_varint(b, &mut i)?;
        let n = (k >> 3) as u32;
        if k >> 32 != 0 || n == 0 {
            return None;
        }
        if k & 7 == 3 {
            open.push(n);
            continue;
        }
        if k & 7 == 4 {
            if open.pop() != Some(n) {
                return None;
            }
            if open.is_empty() {
                o.push((n, F::G));
            }
            continue;
        }
        let f = match k & 7 {
            0 => F::V(rd_varint(b, &mut i)?),
            1 => {
                let x = b.get(i..i + 8)?;
                i += 8;
                F::I64(x.try_into().ok()?)
            }
            2 => {
                let n = rd_varint(b, &mut i)? as usize;
                let x = b.get(i..i.checked_add(n)?)?;
                i += n;
                F::B(x.to_vec())
            }
            5 => {
                let x = b.get(i..i + 4)?;
                i += 4;
                F::I32(x.try_into().ok()?)
            }
            _ => return None,
        };
        if open.is_empty() {
            o.push((n, f));
        }
    }
    if !open.is_empty() {
        return None;
    }
    Some(o)
}
/// Last bytes field numbered `n`.
pub fn sub(m: &[(u32, F)], n: u32) -> Option<Vec<u8>> {
    m.iter().rev().find_map(|(k, f)| match f {
        F::B(b) if *k == n => Some(b.clone()),
        _ => None,
    })
}
pub fn subs(m: &[(u32, F)], n: u32) -> Vec<Vec<u8>> {
    m.iter()
        .filter_map(|(k, f)| match f {
            F::B(b) if *k == n => Some(b.clone()),
            _ => None,
        })
        .collect()
}
pub fn num(m: &[(u32, F)], n: u32) -> Option<u64> {
    m.iter().rev().find_map(|(k, f)| match f {
        F::V(b) if *k == n => Some(*b),
        _ => None,
    })
}
/// Follow a path of message fields.
pub fn path(b: &[u8], p: &[u32]) -> Option<Vec<u8>> {
    let mut cur = b.to_vec();
    for n in p {
        cur = sub(&parse(&cur)?, *n)?;
    }
    Some(cur)
}

/// True when the message holds only the varint field `v` and empty sub-messages, so that every
/// decoder must accept it.
pub fn plain(b: &[u8], v: u32) -> bool {
    parse(b).is_some_and(|m| {
        m.iter().all(|(n, f)| match f {
            F::V(_) => *n == v,
            F::B(x) => *n != v && x.is_empty(),
            _ => false,
        })
    })
}
