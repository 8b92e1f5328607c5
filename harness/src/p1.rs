use crate::common::*;
use crate::{ck, log};
use byteorder::{LittleEndian, WriteBytesExt};
use gfwx::bits::*;
use gfwx::encode as enc;
use gfwx::processing::image::Image;
use gfwx::*;

// ---------------------------------------------------------------- C02
fn edge(r: &mut Rng, lo: u64, hi: u64) -> u64 {
    match r.range(0, 5) { 0 => lo, 1 => hi, 2 => lo + r.range(0, (hi - lo).min(3)), 3 => hi - r.range(0, (hi - lo).min(3)), 4 => { let k = r.range(0, 63); (lo + (1u64 << k).min(hi - lo)).min(hi) } _ => r.range(lo, hi) }
}
const INTENTS: [Intent; 6] = [Intent::Generic, Intent::RGB, Intent::RGBA, Intent::BGR, Intent::BGRA, Intent::YUV444];
const INTENT_CODE: [u8; 6] = [0, 7, 8, 10, 11, 12];

pub fn c02(r: &mut Rng, l: &mut Log) -> Res {
    let (w, h) = (edge(r, 1, (1 << 30) - 1) as u32, edge(r, 1, (1 << 30) - 1) as u32);
    let (la, ch) = (edge(r, 1, 65535) as u16, edge(r, 1, 65535) as u16);
    let (q, cs, bs) = (edge(r, 1, 1024) as u16, edge(r, 1, 255) as u8, edge(r, 2, 30) as u8);
    let ii = r.us(0, 5);
    let (f, e) = (filter(r), encoder(r));
    let md = (edge(r, 0, (1 << 30) - 1) as u32) * 4;
    log!(l, "builder {}x{} layers {} channels {} quality {} chroma_scale {} block_size {} {:?} {:?} {:?} metadata_size {}", w, h, la, ch, q, cs, bs, f, e, INTENTS[ii], md);
    let b = HeaderBuilder { width: w, height: h, layers: la, channels: ch, quality: q, chroma_scale: cs, block_size: bs, filter: f, encoder: e, intent: INTENTS[ii], metadata_size: md };
    let fits = (w as u128) * (h as u128) * (la as u128) * (ch as u128) <= usize::MAX as u128;
    let mut hd = match b.build() { Ok(h) => h, Err(_) => { ck!(!fits, "builder rejects valid values"); return Ok(()); } };
    l.nontrivial = true;
    if r.b() { hd.version = r.next() as u32; }
    let mut v = vec![];
    hd.encode(&mut v).map_err(|e| format!("encode failed {}", e))?;
    let tmp = (bs as u32 - 2) | ((cs as u32 - 1) << 5) | ((q as u32 - 1) << 13);
    let mut x = vec![];
    x.extend_from_slice(b"GFWX");
    for k in [hd.version, w, h] { x.extend_from_slice(&k.to_le_bytes()); }
    x.extend_from_slice(&(ch - 1).to_le_bytes());
    x.extend_from_slice(&(la - 1).to_le_bytes());
    x.extend_from_slice(&tmp.to_le_bytes()[..3]);
    x.extend_from_slice(&[7, INTENT_CODE[ii], match e { Encoder::Turbo => 0, Encoder::Fast => 1, Encoder::Contextual => 2 }, 0, match f { Filter::Linear => 0, Filter::Cubic => 1 }]);
    x.extend_from_slice(&(md / 4).to_le_bytes());
    ck!(v == x, "layout differs: got {} expected {}", hex(&v), hex(&x));
    // smaller sinks give an error
    let cut = r.us(0, 31);
    let mut small = vec![0u8; cut];
    ck!(hd.encode(&mut small.as_mut_slice()).is_err(), "encoding into {} bytes succeeded", cut);
    ck!(Header::decode(&mut &v[..cut]).is_err(), "decoding {} bytes succeeded", cut);
    let extra = r.us(0, 5);
    for _ in 0..extra { v.push(r.next() as u8); }
    let mut s = v.as_slice();
    let d = Header::decode(&mut s).map_err(|e| format!("decode failed {}", e))?;
    ck!(s.len() == extra, "decode consumed {} bytes", v.len() - s.len());
    ck!(d == hd, "decoded {:?} expected {:?}", d, hd);
    ck!(d.get_image_size() as u128 == w as u128 * h as u128 * la as u128 * ch as u128 && d.get_channel_size() as u128 == w as u128 * h as u128, "sizes");
    Ok(())
}

// ---------------------------------------------------------------- C03
fn valid(w: u32, h: u32, la: u16, ch: u16, q: u16, cs: u8, bs: u8) -> bool {
    w >= 1 && h >= 1 && w < 1 << 30 && h < 1 << 30 && la >= 1 && ch >= 1 && cs >= 1 && (1..=1024).contains(&q) && (2..=30).contains(&bs)
        && (w as u128) * (h as u128) * (la as u128) * (ch as u128) <= usize::MAX as u128
}
pub fn c03(r: &mut Rng, l: &mut Log) -> Res {
    if r.b() {
        let any32 = |r: &mut Rng| match r.range(0, 6) { 0 => r.pick(&[0u32, 1, 2, (1 << 30) - 1, 1 << 30, (1 << 30) + 1, u32::MAX, 1 << 31]), 1 => r.next() as u32, _ => edge(r, 1, (1 << 30) - 1) as u32 };
        let (w, h) = (any32(r), any32(r));
        let (la, ch) = (edge(r, 0, 65535) as u16, edge(r, 0, 65535) as u16);
        let (q, cs, bs) = (edge(r, 0, 1030) as u16, edge(r, 0, 255) as u8, edge(r, 0, 40) as u8);
        log!(l, "builder {}x{} layers {} channels {} quality {} chroma_scale {} block_size {}", w, h, la, ch, q, cs, bs);
        let v = valid(w, h, la, ch, q, cs, bs);
        l.nontrivial = true;
        match (HeaderBuilder { width: w, height: h, layers: la, channels: ch, quality: q, chroma_scale: cs, block_size: bs, filter: filter(r), encoder: encoder(r), intent: Intent::RGB, metadata_size: r.next() as u32 }).build() {
            Ok(x) => {
                ck!(v, "builder accepted invalid values: {:?}", x);
                ck!(x.get_channel_size() as u128 == w as u128 * h as u128 && x.get_image_size() as u128 == w as u128 * h as u128 * la as u128 * ch as u128, "sizes {:?}", x);
                ck!(x.width == w && x.height == h && x.layers == la && x.channels == ch && x.quality == q && x.chroma_scale == cs && x.block_size == bs, "fields {:?}", x);
            }
            Err(_) => ck!(!v, "builder rejected valid values"),
        }
    } else {
        // bytes: start from plausible ones, then mutate
        let mut b: Vec<u8> = vec![];
        b.extend_from_slice(b"GFWX");
        for _ in 0..3 { let k = edge(r, 0, (1 << 30) + 1) as u32; b.extend_from_slice(&k.to_le_bytes()); }
        for _ in 0..2 { let k = edge(r, 0, 65535) as u16; b.extend_from_slice(&k.to_le_bytes()); }
        let tmp = edge(r, 0, 31) | edge(r, 0, 255) << 5 | edge(r, 0, 1023) << 13 | if r.chance(8) { 1 << 23 } else { 0 };
        b.extend_from_slice(&(tmp as u32).to_le_bytes()[..3]);
        b.push(if r.chance(5) { r.next() as u8 } else { 7 });
        b.push(r.pick(&[0, 7, 8, 10, 11, 12, 13, 1, 9, 255])); b.push(r.pick(&[0, 1, 2, 2, 3])); b.push(r.pick(&[0, 0, 0, 1])); b.push(r.pick(&[0, 1, 1, 2]));
        let md = if r.chance(4) { r.next() as u32 } else { edge(r, 0, 1 << 30) as u32 };
        b.extend_from_slice(&md.to_le_bytes());
        if r.chance(6) { let i = r.us(0, b.len() - 1); b[i] = r.next() as u8; }
        if r.chance(8) { b.truncate(r.us(0, 31)); }
        log!(l, "bytes {}", hex(&b));
        let res = Header::decode(&mut b.as_slice());
        // independent predicate
        let exp = b.len() >= 32 && &b[..4] == b"GFWX" && {
            let (w, h) = (rd32(&b, 8) as u32, rd32(&b, 12) as u32);
            let ch = b[16] as u32 + b[17] as u32 * 256 + 1; let la = b[18] as u32 + b[19] as u32 * 256 + 1;
            let t = b[20] as u32 | (b[21] as u32) << 8 | (b[22] as u32) << 16;
            let (bs, cs, q, sg) = ((t & 31) + 2, ((t >> 5) & 255) + 1, ((t >> 13) & 1023) + 1, t >> 23);
            ch <= 65535 && la <= 65535 && cs <= 255 && sg == 0 && b[23] <= 7 && INTENT_CODE.contains(&b[24]) && b[25] <= 2 && b[26] == 0 && b[27] <= 1
                && rd32(&b, 28) < 1 << 30 && valid(w, h, la as u16, ch as u16, q as u16, cs as u8, bs as u8)
        };
        ck!(res.is_ok() == exp, "decode gave {:?}, expected {}", res, if exp { "acceptance" } else { "an error" });
        if let Ok(x) = res { l.nontrivial = true;
            ck!(valid(x.width, x.height, x.layers, x.channels, x.quality, x.chroma_scale, x.block_size) && !x.is_signed && x.bit_depth >= 1 && x.bit_depth <= 8, "invalid header accepted {:?}", x);
            ck!(x.get_image_size() as u128 == x.width as u128 * x.height as u128 * x.layers as u128 * x.channels as u128 && x.get_channel_size() as u128 == x.width as u128 * x.height as u128, "sizes {:?}", x);
            let mut o = vec![]; x.encode(&mut o).map_err(|e| e.to_string())?;
            ck!(o[..] == b[..32], "re-encoding differs: {} vs {}", hex(&o), hex(&b));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C04
fn bits_to_bytes(bits: &[bool]) -> Vec<u8> {
    let mut v = vec![];
    for c in bits.chunks(32) { let mut w = 0u32; for (i, b) in c.iter().enumerate() { if *b { w |= 1 << (31 - i); } } v.extend_from_slice(&w.to_le_bytes()); }
    v
}
pub fn c04(r: &mut Rng, l: &mut Log) -> Res {
    let n = r.us(0, 40);
    let mut fields: Vec<(u32, u32)> = vec![]; // (value,width); width 99 = flush
    for _ in 0..n { let w = match r.range(0, 4) { 0 => r.pick(&[0, 1, 30, 31]), 1 => r.range(0, 4) as u32, _ => r.range(0, 31) as u32 };
        if r.chance(15) { fields.push((0, 99)); continue; }
        let v = match r.range(0, 3) { 0 => 0, 1 => u32::MAX, _ => r.next() as u32 }; fields.push((if w == 0 { 0 } else { v & (u32::MAX >> (32 - w)) }, w)); }
    fields.push((0, 99));
    log!(l, "fields (value,width; 99=flush) {:?}", fields);
    l.nontrivial = true;
    let mut bits: Vec<bool> = vec![];
    let mut out: Vec<u8> = vec![];
    {
        let mut w = BitsIOWriter::new(&mut out);
        for &(v, k) in &fields {
            if k == 99 { w.flush_write_word().map_err(|e| e.to_string())?; while bits.len() % 32 != 0 { bits.push(false); } }
            else { w.put_bits(v, k).map_err(|e| e.to_string())?; for i in (0..k).rev() { bits.push(v >> i & 1 == 1); } }
        }
    }
    let expect = bits_to_bytes(&bits);
    ck!(out == expect, "bytes {} expected {}", hex(&out), hex(&expect));
    // bounded sink: error exactly when a word does not fit
    if expect.len() >= 4 {
        let cap = r.us(0, expect.len() + 3);
        let mut store = vec![0u8; cap];
        let mut sink = store.as_mut_slice();
        let mut failed = None; let mut nb = 0usize;
        { let mut w = BitsIOWriter::new(&mut sink);
          for (i, &(v, k)) in fields.iter().enumerate() {
              let res = if k == 99 { nb = (nb + 31) / 32 * 32; w.flush_write_word() } else { nb += k as usize; w.put_bits(v, k) };
              let fits = nb / 32 * 4 <= cap;
              if res.is_ok() != fits { return Err(format!("capacity {} field {}: result {:?} but fits={}", cap, i, res, fits)); }
              if !fits { failed = Some(i); break; }
          } }
        if failed.is_none() { let used = cap - sink.len(); ck!(used == expect.len() && store[..used] == expect[..], "bounded sink content differs"); }
    }
    // reading, possibly truncated
    let have_words = if r.chance(3) { r.us(0, expect.len() / 4) } else { expect.len() / 4 };
    let trunc = have_words < expect.len() / 4;
    let data = &expect[..have_words * 4];
    let mut src = data;
    let mut pos = 0usize; // bits consumed
    let mut res: Res = Ok(());
    {
        let mut rd = BitsIOReader::new(&mut src);
        for &(v, k) in &fields {
            if k == 99 { rd.flush_read_word(); pos = (pos + 31) / 32 * 32; continue; }
            if k == 0 { continue; }
            // sometimes read the field as a zero count
            let zeros_first = r.chance(3);
            if zeros_first {
                let max = r.range(1, 14) as u32;
                let mut z = 0; let mut p = pos; let mut need = pos;
                while z < max { need = p + 1; if p < bits.len() && bits[p] { p += 1; break; } z += 1; p += 1; }
                let ok = need <= data.len() * 8;
                if need > bits.len() { break; }
                match rd.get_zeros(max) { Ok(g) => { if !ok || g != z { res = Err(format!("get_zeros({}) at bit {} gave {} expected {} (ok={})", max, pos, g, z, ok)); break; } pos = p; }
                    Err(_) => { if ok { res = Err(format!("get_zeros({}) at bit {} failed", max, pos)); } break; } }
                // read the rest of this field bit by bit
                // realign to field boundaries by skipping: compute remaining bits until the next boundary
                let mut acc = 0; for &(_, k2) in &fields { if k2 == 99 { acc = (acc + 31) / 32 * 32; } else { acc += k2 as usize; } if acc >= pos && acc > 0 { break; } }
                let gap = acc.saturating_sub(pos); if gap > 0 && gap <= 32 { let ok = acc <= data.len() * 8;
                    let mut want = 0u64; for i in pos..acc { want = want << 1 | (i < bits.len() && bits[i]) as u64; }
                    match rd.get_bits(gap as u32) { Ok(g) => { if !ok || g as u64 != want { res = Err(format!("get_bits({}) at bit {} gave {} expected {}", gap, pos, g, want)); break; } pos = acc; } Err(_) => { if ok { res = Err(format!("get_bits({}) at {} failed", gap, pos)); } break; } } }
                break; // script no longer aligned with the fields
            }
            let ok = pos + k as usize <= data.len() * 8;
            match rd.get_bits(k) {
                Ok(g) => { if !ok || g != v { res = Err(format!("get_bits({}) at bit {} gave {} expected {} (data available: {})", k, pos, g, v, ok)); break; } pos += k as usize; }
                Err(_) => { if ok { res = Err(format!("get_bits({}) at bit {} failed", k, pos)); } pos = usize::MAX; break; }
            }
        }
    }
    res?;
    let _ = trunc;
    if pos != usize::MAX && !trunc { let used = (data.len() - src.len()) / 4; ck!(used == (pos + 31) / 32, "reader took {} words for {} bits", used, pos); }
    Ok(())
}

// ---------------------------------------------------------------- C05
fn any_u32(r: &mut Rng) -> u32 {
    match r.range(0, 7) { 0 => r.range(0, 40) as u32, 1 => r.pick(&[0, 1, u32::MAX, u32::MAX - 1, 1 << 31, (1 << 31) - 1, 1 << 27, (1 << 27) - 1, 171_000_000, 0x0fff_ffff]), 2 => r.next() as u32,
        3 => { let k = r.range(0, 31); (1u32 << k).wrapping_add(r.i(-2, 2) as u32) }
        4 => { let k = r.range(0, 24) as u32; let m = r.range(0, 13) as u32; (m << k).wrapping_add(r.i(-1, 1) as u32) }
        5 => { let mut p = r.range(0, 24) as u32; let mut x = 0u32; for _ in 0..r.range(1, 9) { x = x.wrapping_add(12u32 << p); p = (p + 4).min(24); } x.wrapping_add(r.i(-1, 200) as u32) }
        _ => (r.next() as u32) >> r.range(0, 31) }
}
pub fn c05(r: &mut Rng, l: &mut Log) -> Res {
    let n = r.us(1, 12);
    let lead = r.range(0, 31) as u32;
    let mut ops: Vec<(u8, u32, i64)> = vec![];
    for _ in 0..n { let pot = r.range(0, 24) as u32; let k = r.range(0, 2) as u8;
        let x = any_u32(r); let v = match k { 0 => x as i64, 1 => { let v = (x & 0x3fff_ffff) as i64; if r.b() { -v } else { v } } _ => { let v = (x & 0x7fff_ffff) as i64; if r.b() { -v } else { v } } };
        let v = if k == 2 && r.chance(50) { i32::MIN as i64 } else { v };
        ops.push((k, pot, v)); }
    log!(l, "lead {} ops (0=unsigned 1=interleaved 2=signed, pot, value) {:?}", lead, ops);
    l.nontrivial = true;
    let mut out = vec![];
    let mut ends = vec![];
    { let mut w = BitsIOWriter::new(&mut out);
      if lead > 0 { w.put_bits(u32::MAX >> (32 - lead), lead).unwrap(); }
      for &(k, p, v) in &ops { match k { 0 => enc::unsigned_code(v as u32, &mut w, p), 1 => enc::interleaved_code(v as i32, &mut w, p), _ => enc::signed_code(v as i32, &mut w, p) }.map_err(|e| e.to_string())?; }
      // marker right after the codes: consumption must be exact
      w.put_bits(0b1011001, 7).unwrap();
      w.flush_write_word().unwrap(); }
    let tail = r.us(0, 2); for _ in 0..tail { out.write_u32::<LittleEndian>(r.next() as u32).unwrap(); }
    { let mut s = out.as_slice(); let mut rd = BitsIOReader::new(&mut s);
      if lead > 0 { rd.get_bits(lead).unwrap(); }
      for (i, &(k, p, v)) in ops.iter().enumerate() {
          let g = match k { 0 => enc::unsigned_decode(&mut rd, p).map(|x| x as i64), 1 => enc::interleaved_decode(&mut rd, p).map(|x| x as i64), _ => enc::signed_decode(&mut rd, p).map(|x| x as i64) };
          match g { Ok(g) => ck!(g == v, "op {} decoded as {}", i, g), Err(e) => return Err(format!("op {} failed: {}", i, e)) }
          ends.push(());
      }
      let m = rd.get_bits(7).map_err(|e| format!("marker: {}", e))?;
      ck!(m == 0b1011001, "codes did not consume exactly the bits written: marker reads {:b}", m);
      rd.flush_read_word();
      ck!(s.len() == tail * 4, "reader left {} bytes, expected {}", s.len(), tail * 4); }
    // truncated: all words but the ones holding the end of the last code -> error somewhere
    { let total_words = out.len() / 4 - tail; if total_words > 1 { let keep = r.us(0, total_words - 2); let mut s = &out[..keep * 4]; let mut rd = BitsIOReader::new(&mut s);
        let mut err = lead > 0 && rd.get_bits(lead).is_err();
        for &(k, p, v) in ops.iter() { if err { break; } match match k { 0 => enc::unsigned_decode(&mut rd, p).map(|x| x as i64), 1 => enc::interleaved_decode(&mut rd, p).map(|x| x as i64), _ => enc::signed_decode(&mut rd, p).map(|x| x as i64) } { Err(_) => err = true, Ok(g) => ck!(g == v, "truncated data decoded as {} instead of {}", g, v) } }
        ck!(err, "truncated codes decoded without an error"); } }
    // arbitrary input
    { let n = r.us(0, 24); let z = r.b(); let data: Vec<u8> = (0..n).map(|_| if z && !r.chance(8) { 0 } else { r.next() as u8 }).collect(); let mut s = data.as_slice(); let mut rd = BitsIOReader::new(&mut s);
      for _ in 0..200 { let p = r.range(0, 24) as u32; let e = match r.range(0, 2) { 0 => enc::unsigned_decode(&mut rd, p).is_err(), 1 => enc::interleaved_decode(&mut rd, p).is_err(), _ => enc::signed_decode(&mut rd, p).is_err() }; if e { break; } } }
    Ok(())
}

// ---------------------------------------------------------------- C06
pub fn in_level(x: usize, y: usize, step: usize) -> bool { x % step == 0 && y % step == 0 && ((x / step) | (y / step)) & 1 == 1 }
pub fn c06(r: &mut Rng, l: &mut Log) -> Res {
    let long = r.chance(150); // zero runs beyond 2^16 coefficients
    let (w, h) = if long { (r.range(290, 320) as u32, r.range(300, 330) as u32) } else { dims(r, false) }; let (w, h) = (w as usize, h as usize);
    let channels = if long { 1 } else { r.us(1, 2) };
    let bsz = if long { 16 } else { r.range(2, 5) as u32 + if r.chance(4) { r.range(0, 20) as u32 } else { 0 } };
    let mut max_step = 1; while max_step * 2 < w || max_step * 2 < h { max_step *= 2; }
    let k = if long { 0 } else { r.range(0, max_step.trailing_zeros() as u64) }; let step = 1usize << k;
    let bs = step << bsz;
    let scheme = encoder(r);
    let q = match r.range(0, 4) { 0 => 1024, 1 => r.range(1, 1024) as i32, 2 => 1, 3 => r.pick(&[0, 2048, 2047, 512, 256, 1023]), _ => r.range(1, 100) as i32 };
    let dc = r.b(); let chroma = r.b();
    let data = if long { let mut d = vec![0i16; w * h]; for _ in 0..r.us(0, 1) { let i = r.us(0, w * h - 1); d[i] = r.next() as i16; } let i = w * h - r.us(1, 3); d[i] = r.i(-1, 1) as i16; d } else { samples(r, w * h * channels) };
    log!(l, "{}x{}x{} step {} block {} {:?} q {} dc {} chroma {} data {:?}", w, h, channels, step, bs, scheme, q, dc, chroma, &data[..data.len().min(200)]);
    let mut a = data.clone();
    let mut b = data.clone();
    // unknown to the decoder: this level and every finer sample
    for c in 0..channels { for y in 0..h { for x in 0..w {
        let coarse = x % (2 * step) == 0 && y % (2 * step) == 0;
        let isdc = dc && x % bs == 0 && y % bs == 0;
        if !coarse || isdc { b[c * w * h + y * w + x] = r.next() as i16; } } } }
    let before = b.clone();
    let mut streams: Vec<(Vec<u8>, usize)> = vec![];
    for ch in Image::from_slice(&mut a, (w, h), channels).into_chunks_mut(bs, step) {
        let mut out = vec![];
        { let mut wr = BitsIOWriter::new(&mut out); enc::encode(&ch, &mut wr, scheme, q, dc, chroma).map_err(|e| e.to_string())?; wr.put_bits(0b10110, 5).unwrap(); wr.flush_write_word().unwrap(); }
        let tail = r.us(0, 2); for _ in 0..tail { out.write_u32::<LittleEndian>(r.next() as u32).unwrap(); }
        streams.push((out, tail));
    }
    ck!(a == data, "encoding changed the image");
    let nblocks = ((w + bs - 1) / bs) * ((h + bs - 1) / bs) * channels;
    ck!(streams.len() == nblocks, "{} blocks, expected {}", streams.len(), nblocks);
    for (i, ch) in Image::from_slice(&mut b, (w, h), channels).into_chunks_mut(bs, step).enumerate() {
        let mut s = streams[i].0.as_slice();
        { let mut rd = BitsIOReader::new(&mut s); enc::decode(ch, &mut rd, scheme, q, dc, chroma).map_err(|e| format!("block {} decode error {}", i, e))?;
          let m = rd.get_bits(5).map_err(|e| e.to_string())?; ck!(m == 0b10110, "block {}: decoder did not consume exactly the encoded bits", i); rd.flush_read_word(); }
        ck!(s.len() == streams[i].1 * 4, "block {} left {} bytes", i, s.len());
    }
    for c in 0..channels { for y in 0..h { for x in 0..w { let i = c * w * h + y * w + x;
        if in_level(x, y, step) || (dc && x % bs == 0 && y % bs == 0) { l.nontrivial = true; ck!(b[i] == data[i], "sample ({},{}) channel {} decoded as {} instead of {}", x, y, c, b[i], data[i]); }
        else { ck!(b[i] == before[i], "sample ({},{}) channel {} is not of this level but changed", x, y, c); } } } }
    // truncated stream gives an error or the same values, never a panic
    { let i = r.us(0, streams.len() - 1); let cut = r.us(0, streams[i].0.len()); let mut t = before.clone();
      if let Some(ch) = Image::from_slice(&mut t, (w, h), channels).into_chunks_mut(bs, step).nth(i) { let mut s = &streams[i].0[..cut]; let mut rd = BitsIOReader::new(&mut s); let _ = enc::decode(ch, &mut rd, scheme, q, dc, chroma); } }
    Ok(())
}

// ---------------------------------------------------------------- C07
const GUARD: i16 = 0x5a5a_u16 as i16;
pub fn c07(r: &mut Rng, l: &mut Log) -> Res {
    let big = r.chance(25);
    let (w, h) = if big { (r.us(60, 200), r.us(90, 200)) } else { let d = dims(r, false); (d.0 as usize, d.1 as usize) };
    let cubic = r.b(); let data = samples(r, w * h);
    let fwd_first = r.b();
    log!(l, "{}x{} {} {} data {:?}", w, h, if cubic { "cubic" } else { "linear" }, if fwd_first { "lift then unlift" } else { "unlift then lift" }, &data[..data.len().min(300)]);
    l.nontrivial = w * h > 1;
    let g = 70; // guard samples around and between
    let mut buf = vec![GUARD; g + (w + 3) * h + g];
    for y in 0..h { for x in 0..w { buf[g + y * (w + 3) + x] = data[y * w + x]; } }
    for pass in 0..2 {
        let mut rows: Vec<&mut [i16]> = buf[g..g + (w + 3) * h].chunks_mut(w + 3).map(|c| &mut c[..w]).collect();
        let fwd = (pass == 0) == fwd_first;
        match (cubic, fwd) { (true, true) => lifting::lift_cubic(&mut rows), (true, false) => lifting::unlift_cubic(&mut rows), (false, true) => lifting::lift_linear(&mut rows), (false, false) => lifting::unlift_linear(&mut rows) }
    }
    for y in 0..h { for x in 0..w { let v = buf[g + y * (w + 3) + x]; ck!(v == data[y * w + x], "sample ({},{}) restored as {} instead of {}", x, y, v, data[y * w + x]); buf[g + y * (w + 3) + x] = GUARD; } }
    ck!(buf.iter().all(|&v| v == GUARD), "samples outside of the image were changed");
    Ok(())
}

// ---------------------------------------------------------------- C08
pub fn c08(r: &mut Rng, l: &mut Log) -> Res {
    let big = r.chance(25);
    let (w, h) = if big { (r.us(90, 200), r.us(110, 200)) } else { let d = dims(r, false); (d.0 as usize, d.1 as usize) };
    let maxq = r.pick(&[1024i32, 8192, 8192]);
    let q = match r.range(0, 5) { 0 => 1, 1 => 1024, 2 => r.range(1, 1024) as i32, 3 => r.range(1, 20) as i32, 4 => r.pick(&[1, 2, 3, 512, 1023, 2048, 4096, 8191]), _ => r.range(1, 8192) as i32 };
    let minq = if r.chance(3) { r.range(0, 40) as i32 } else { 0 };
    let mut data = samples(r, w * h); for v in data.iter_mut() { *v = (*v).clamp(-16384, 16384); }
    log!(l, "{}x{} quality {} min {} max {} data {:?}", w, h, q, minq, maxq, &data[..data.len().min(300)]);
    // expected set of touched samples and the step of each
    let mut lvq = vec![None; w * h];
    let mut skip = 1; let mut qq = q as i64;
    while skip < w && skip < h { let e = qq.max(minq as i64).max(1); if e >= maxq as i64 { break; }
        for y in (0..h).step_by(skip) { for x in (0..w).step_by(skip) { if ((x / skip) | (y / skip)) & 1 == 1 { lvq[y * w + x] = Some(e); } } }
        skip *= 2; qq = (2 * qq).min(maxq as i64); }
    let mut v = data.clone();
    { let mut rows: Vec<_> = v.chunks_mut(w).collect(); quant::quantize(&mut rows, q, minq, maxq); }
    for i in 0..w * h { let (x, y) = (i % w, i / w); let (o, n) = (data[i] as i64, v[i] as i64);
        match lvq[i] { None => ck!(o == n, "({},{}) must not be quantized: {} became {}", x, y, o, n),
            Some(e) => { l.nontrivial = true; ck!(n == o * e / maxq as i64, "({},{}) step {}/{}: {} became {}", x, y, e, maxq, o, n); ck!(n.abs() <= o.abs() && n * o >= 0, "sign/magnitude"); } } }
    let mid = v.clone();
    { let mut rows: Vec<_> = v.chunks_mut(w).collect(); quant::dequantize(&mut rows, q, minq, maxq); }
    for i in 0..w * h { let (x, y) = (i % w, i / w); let (o, m, n) = (data[i] as i64, mid[i] as i64, v[i] as i64);
        match lvq[i] { None => ck!(o == n, "({},{}) must not be dequantized: {} became {}", x, y, o, n),
            Some(e) => { ck!((m == 0 && n == 0) || n * m > 0, "({},{}) {} quantized {} dequantized {}", x, y, o, m, n); ck!((n - o).abs() <= maxq as i64 / e + 1, "({},{}) step {}/{}: {} restored as {}", x, y, e, maxq, o, n); } } }
    Ok(())
}

// ---------------------------------------------------------------- C09
pub fn c09(r: &mut Rng, l: &mut Log) -> Res {
    let qual = if r.b() { 1024 } else { r.range(1, 1023) as u16 };
    let h = header(r, qual, 1, false);
    let n = h.layers as usize * h.channels as usize; let cs = h.width as usize * h.height as usize;
    let (p, ps) = reversible_program(r, n, true);
    let img = pixels(r, &h);
    let inter = r.b();
    log!(l, "{} {} {} img {}", hdr_s(&h), ps, if inter { "interleaved" } else { "planar" }, hex(&img));
    l.nontrivial = true;
    let extra = r.us(0, 3);
    let mut aux = vec![0i16; img.len()];
    if inter { p.transform_and_to_planar(&img, &h, &mut aux); } else { p.transform(&img, &h, &mut aux); }
    let mut out = vec![0xA5u8; img.len() + extra];
    { let mut a2 = aux.clone(); if inter { p.detransform_and_to_interleaved(&mut a2, &h, cs, &mut out); } else { p.detransform(&mut a2, &h, cs, &mut out); } }
    ck!(out[..img.len()] == img[..], "pixels differ first at {:?}", out.iter().zip(&img).position(|(a, b)| a != b));
    ck!(out[img.len()..].iter().all(|&b| b == 0xA5), "bytes beyond the image changed");
    // perturbed data: model of the inverse transform with clamping
    for v in aux.iter_mut() { if r.chance(3) { *v = v.wrapping_add(r.i(-3000, 3000) as i16); } }
    let boost = if h.quality == 1024 { 1i64 } else { 8 };
    let mut m: Vec<i16> = aux.clone();
    let ts: Vec<_> = p.iter().cloned().collect();
    for t in ts.iter().rev() { for i in 0..cs { let mut s = 0i16; for f in &t.channel_factors { s = s.wrapping_add(m[f.src_channel * cs + i].wrapping_mul(f.factor as i16)); } let d = t.dest_channel * cs + i; m[d] = m[d].wrapping_sub(s / t.denominator as i16); } }
    if inter { p.detransform_and_to_interleaved(&mut aux, &h, cs, &mut out); } else { p.detransform(&mut aux, &h, cs, &mut out); }
    let chs = h.channels as usize;
    for c in 0..n { for i in 0..cs { let e = (m[c * cs + i] as i64 / boost).clamp(0, 255) as u8;
        let o = if inter { (c / chs) * cs * chs + i * chs + c % chs } else { c * cs + i };
        ck!(out[o] == e, "restored sample {} of channel {} is {} instead of {}", i, c, out[o], e); } }
    Ok(())
}

// ---------------------------------------------------------------- C10
pub fn c10(r: &mut Rng, l: &mut Log) -> Res {
    let n = r.us(1, 8);
    let mut p = ColorTransformProgram::new();
    let mut flags = vec![false; n];
    let k = r.us(0, 5);
    for _ in 0..k {
        let d = r.us(0, n - 1);
        let mut b = ChannelTransformBuilder::with_dest_channel(d);
        for _ in 0..r.us(0, 4) { let s = r.us(0, n - 1); let f = match r.range(0, 4) { 0 => r.i(-5, 5), 1 => r.pick(&[i32::MIN as i64, i32::MAX as i64, 0, -1, 65536, -200_000_000]), 2 => r.i(-40000, 40000), 3 => 1i64 << r.range(0, 30), _ => r.next() as i32 as i64 } as isize; b.add_channel_factor(s, f); }
        if r.b() { b.set_denominator(match r.range(0, 3) { 0 => r.range(1, 32767), 1 => 32767, 2 => 1 << r.range(0, 14), _ => r.range(1, 20) } as isize); }
        if r.b() { b.set_chroma(); flags[d] = true; } else { flags[d] = false; }
        p.add_channel_transform(b.build());
    }
    log!(l, "channels {} {:?}", n, p);
    l.nontrivial = k > 0;
    let mut v = vec![];
    let e = p.encode(n, &mut v).map_err(|e| e.to_string())?;
    ck!(e == flags, "encode reports chroma flags {:?}, expected {:?}", e, flags);
    ck!(v.len() % 4 == 0, "size {} is not a whole number of words", v.len());
    let cut = r.us(0, v.len() - 1);
    { let mut small = vec![0u8; cut]; ck!(p.encode(n, &mut small.as_mut_slice()).is_err(), "encoding into {} bytes of {} succeeded", cut, v.len()); }
    { let mut c = vec![false; n]; ck!(ColorTransformProgram::decode(&mut &v[..cut], &mut c).is_err(), "decoding {} bytes of {} succeeded", cut, v.len()); }
    let extra = r.us(0, 9); for _ in 0..extra { v.push(r.next() as u8); }
    let mut s = v.as_slice(); let mut c = vec![false; n];
    let d = ColorTransformProgram::decode(&mut s, &mut c).map_err(|e| format!("decode failed: {}", e))?;
    ck!(d == p, "decoded {:?}", d);
    ck!(c == flags, "decoded chroma flags {:?}, expected {:?}", c, flags);
    ck!(s.len() == extra, "decode left {} bytes, expected {}", s.len(), extra);
    // fewer channels than the program uses -> error; arbitrary bytes -> error or valid program
    if let Some(m) = p.iter().flat_map(|t| t.channel_factors.iter().map(|f| f.src_channel).chain(std::iter::once(t.dest_channel))).max() { if m > 0 { let mut c = vec![false; m]; ck!(ColorTransformProgram::decode(&mut v.as_slice(), &mut c).is_err(), "program with channel {} accepted for {} channels", m, m); } }
    let mut g: Vec<u8> = if r.b() { v.clone() } else { (0..r.us(0, 40)).map(|_| if r.chance(3) { 0 } else { r.next() as u8 }).collect() };
    for _ in 0..r.us(1, 4) { if !g.is_empty() { let i = r.us(0, g.len() - 1); g[i] ^= 1 << r.range(0, 7); } }
    let mut c = vec![false; n];
    log!(l, "bytes {}", hex(&g));
    if let Ok(d) = ColorTransformProgram::decode(&mut g.as_slice(), &mut c) { for t in d.iter() {
        ck!(t.dest_channel < n && t.denominator > 0 && t.denominator < 32768 && t.channel_factors.iter().all(|f| f.src_channel < n), "invalid transform accepted {:?}", t); } }
    // denominators out of range, built by hand with the public coders
    { let mut o = vec![]; let den = r.pick(&[0i32, -1, -65535, 65536, 65537, 32768, i32::MIN, i32::MAX, -32768, 131072]);
      { let mut w = BitsIOWriter::new(&mut o); for x in [0, -1, den, 0, -1] { enc::signed_code(x, &mut w, 2).unwrap(); } w.flush_write_word().unwrap(); }
      let mut c = vec![false; n]; log!(l, "denominator {}", den);
      ck!(ColorTransformProgram::decode(&mut o.as_slice(), &mut c).is_err(), "denominator {} accepted", den); }
    Ok(())
}

// ---------------------------------------------------------------- C11
pub fn c11(r: &mut Rng, l: &mut Log) -> Res {
    let ch = r.us(1, 9); let px = r.us(0, 60); let boost = r.pick(&[1i16, 8]);
    let mut skip: Vec<usize> = vec![]; for c in 0..ch { if r.chance(3) { skip.push(c); } }
    if r.chance(5) { skip.push(ch + 3); } if r.chance(5) && !skip.is_empty() { let d = skip[0]; skip.push(d); }
    for i in (1..skip.len()).rev() { let j = r.us(0, i); skip.swap(i, j); }
    let img: Vec<u8> = (0..ch * px).map(|_| r.next() as u8).collect();
    log!(l, "channels {} pixels {} boost {} skip {:?} img {}", ch, px, boost, skip, hex(&img));
    l.nontrivial = px > 0;
    let kept: Vec<usize> = (0..ch).filter(|c| !skip.contains(c)).collect();
    let mut pl = vec![12345i16; kept.len() * px + 2];
    interleaved_to_planar(&img, ch, boost, &mut pl, &skip);
    for (k, &c) in kept.iter().enumerate() { for i in 0..px { ck!(pl[k * px + i] == img[i * ch + c] as i16 * boost, "plane {} sample {} is {}", k, i, pl[k * px + i]); } }
    ck!(pl[kept.len() * px..] == [12345, 12345], "planar data written beyond its end");
    let orig: Vec<u8> = (0..ch * px).map(|_| r.next() as u8).collect();
    let mut out = orig.clone();
    planar_to_interleaved(&pl, ch, boost, &mut out, &skip);
    for i in 0..px { for c in 0..ch { let e = if skip.contains(&c) { orig[i * ch + c] } else { img[i * ch + c] }; ck!(out[i * ch + c] == e, "pixel {} channel {} is {} instead of {}", i, c, out[i * ch + c], e); } }
    for v in pl.iter_mut() { if r.b() { *v = r.next() as i16; } }
    planar_to_interleaved(&pl, ch, boost, &mut out, &skip);
    for (k, &c) in kept.iter().enumerate() { for i in 0..px { let e = (pl[k * px + i] / boost).clamp(0, 255) as u8; ck!(out[i * ch + c] == e, "clamp: {} gives {}", pl[k * px + i], out[i * ch + c]); } }
    Ok(())
}
