//! Independent zip reader: central directory, local headers, deflate and CRC.

use std::io::Read;

#[derive(Debug, Clone)]
pub struct Entry {
    pub name: String,
    pub data: Vec<u8>,
    pub method: u16,
    pub dos_date: u16,
    pub dos_time: u16,
}

fn u16le(b: &[u8], i: usize) -> Result<usize, String> {
    b.get(i..i + 2)
        .map(|s| usize::from(u16::from_le_bytes([s[0], s[1]])))
        .ok_or_else(|| format!("zip: short read at {i}"))
}
fn u32le(b: &[u8], i: usize) -> Result<usize, String> {
    b.get(i..i + 4)
        .map(|s| u32::from_le_bytes([s[0], s[1], s[2], s[3]]) as usize)
        .ok_or_else(|| format!("zip: short read at {i}"))
}

/// Replace the values which are kept in a ZIP64 extra field.
fn zip64(extra: &[u8], v: &[usize]) -> Result<Vec<usize>, String> {
    let mut out = v.to_vec();
    if !v.contains(&0xFFFF_FFFF) {
        return Ok(out);
    }
    let mut i = 0;
    while i + 4 <= extra.len() {
        let (id, n) = (u16le(extra, i)?, u16le(extra, i + 2)?);
        if id == 1 {
            let mut at = i + 4;
            for x in out.iter_mut().filter(|x| **x == 0xFFFF_FFFF) {
                let b = extra
                    .get(at..at + 8)
                    .filter(|_| at + 8 <= i + 4 + n)
                    .ok_or("zip: short ZIP64 field")?;
                *x = usize::from_le_bytes([b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]]);
                at += 8;
            }
            return Ok(out);
        }
        i += 4 + n;
    }
    Err("zip: no ZIP64 field".into())
}

pub fn read(b: &[u8]) -> Result<Vec<Entry>, String> {
    if b.len() < 22 {
        return Err("zip: too short".into());
    }
    let mut e = None;
    let lo = b.len().saturating_sub(22 + 65535);
    for i in (lo..=b.len() - 22).rev() {
        if &b[i..i + 4] == b"PK\x05\x06" && u16le(b, i + 20)? == b.len() - i - 22 {
            e = Some(i);
            break;
        }
    }
    let e = e.ok_or("zip: no end of central directory")?;
    if u16le(b, e + 4)? != 0 || u16le(b, e + 6)? != 0 {
        return Err("zip: multi-disk".into());
    }
    let n = u16le(b, e + 10)?;
    if n != u16le(b, e + 8)? {
        return Err("zip: entry counts differ".into());
    }
    let cd_size = u32le(b, e + 12)?;
    let cd_off = u32le(b, e + 16)?;
    if cd_off + cd_size != e {
        // A zip64 locator may sit in between; not expected for our sizes.
        return Err("zip: central directory does not abut its end record".into());
    }
    let mut out: Vec<Entry> = vec![];
    let mut i = cd_off;
    let mut spans: Vec<(usize, usize)> = vec![];
    for _ in 0..n {
        if b.get(i..i + 4) != Some(b"PK\x01\x02") {
            return Err("zip: bad central header".into());
        }
        let flags = u16le(b, i + 8)?;
        let method = u16le(b, i + 10)?;
        let time = u16le(b, i + 12)?;
        let date = u16le(b, i + 14)?;
        let crc = u32le(b, i + 16)?;
        let mut csize = u32le(b, i + 20)?;
        let mut usize_ = u32le(b, i + 24)?;
        let nl = u16le(b, i + 28)?;
        let xl = u16le(b, i + 30)?;
        let cl = u16le(b, i + 32)?;
        let mut lho = u32le(b, i + 42)?;
        let extra = b.get(i + 46 + nl..i + 46 + nl + xl).ok_or("zip: extra")?;
        for v in zip64(extra, &[usize_, csize, lho])?.into_iter().enumerate() {
            *[&mut usize_, &mut csize, &mut lho][v.0] = v.1;
        }
        let name = std::str::from_utf8(b.get(i + 46..i + 46 + nl).ok_or("zip: name")?)
            .map_err(|_| "zip: name not UTF-8")?
            .to_string();
        i += 46 + nl + xl + cl;
        if b.get(lho..lho + 4) != Some(b"PK\x03\x04") {
            return Err(format!("zip: bad local header for {name}"));
        }
        if flags & 1 != 0 {
            return Err("zip: encrypted".into());
        }
        let lnl = u16le(b, lho + 26)?;
        let lxl = u16le(b, lho + 28)?;
        if b.get(lho + 30..lho + 30 + lnl) != Some(name.as_bytes()) {
            return Err(format!("zip: local name differs for {name}"));
        }
        if u16le(b, lho + 8)? != method {
            return Err(format!("zip: local method differs for {name}"));
        }
        let extra = b.get(lho + 30 + lnl..lho + 30 + lnl + lxl).ok_or("zip: extra")?;
        let local = zip64(extra, &[u32le(b, lho + 22)?, u32le(b, lho + 18)?])?;
        if flags & 8 == 0 && (u32le(b, lho + 14)? != crc || local != [usize_, csize]) {
            return Err(format!("zip: local sizes/crc differ for {name}"));
        }
        let ds = lho + 30 + lnl + lxl;
        let raw = b
            .get(ds..ds + csize)
            .ok_or_else(|| format!("zip: data out of bounds for {name}"))?;
        spans.push((lho, ds + csize));
        let data = match method {
            0 => raw.to_vec(),
            8 => {
                let mut v = Vec::with_capacity(usize_);
                let mut d = flate2::read::DeflateDecoder::new(raw);
                d.read_to_end(&mut v)
                    .map_err(|e| format!("zip: inflate {name}: {e}"))?;
                v
            }
            m => return Err(format!("zip: method {m}")),
        };
        if data.len() != usize_ {
            return Err(format!("zip: size differs for {name}"));
        }
        if crc32fast::hash(&data) as usize != crc {
            return Err(format!("zip: crc differs for {name}"));
        }
        if out.iter().any(|x| x.name.eq_ignore_ascii_case(&name)) {
            return Err(format!("zip: duplicate entry {name}"));
        }
        out.push(Entry {
            name,
            data,
            method: method as u16,
            dos_date: date as u16,
            dos_time: time as u16,
        });
    }
    if i != e {
        return Err("zip: central directory size".into());
    }
    spans.sort_unstable();
    for w in spans.windows(2) {
        if w[0].1 > w[1].0 {
            return Err("zip: overlapping entries".into());
        }
    }
    Ok(out)
}
