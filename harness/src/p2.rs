use crate::common::*;
use crate::{ck, log};
use gfwx::bits::*;
use gfwx::compress::decompress_image_data;
use gfwx::encode as enc;
use gfwx::processing::image::Image;
use gfwx::*;

fn err<E: std::fmt::Debug>(what: &str) -> impl Fn(E) -> String + '_ { move |e| format!("{} failed: {:?}", what, e) }
fn n_of(h: &Header) -> usize { h.layers as usize * h.channels as usize }

// ---------------------------------------------------------------- C01
pub fn c01(r: &mut Rng, l: &mut Log) -> Res {
    let big = r.chance(60);
    let chroma = r.b();
    let cs = if chroma { 1 } else { r.range(1, 255) as u8 };
    let h = header(r, 1024, cs, big);
    let (p, ps) = reversible_program(r, n_of(&h), chroma);
    let img = pixels(r, &h);
    log!(l, "{} {} img {}", hdr_s(&h), ps, hex(&img));
    l.nontrivial = true;
    let mut buf = vec![0u8; big_buffer(&h) + 4000];
    let n = compress_simple(&img, &h, &p, &mut buf).map_err(err("compression"))?;
    ck!(n <= buf.len(), "returned size {} of a buffer of {}", n, buf.len());
    let mut s = &buf[..n];
    let d = Header::decode(&mut s).map_err(err("header"))?;
    ck!(d == h, "header read back as {:?}", d);
    let mut out = vec![0xA5u8; img.len()];
    let poi = decompress_simple(s, &d, 0, false, &mut out).map_err(err("decompression"))?;
    ck!(poi == 0, "decompression of the complete data reports point of interest {}", poi);
    ck!(out == img, "pixels differ, first at index {:?} of {}", out.iter().zip(&img).position(|(a, b)| a != b), img.len());
    Ok(())
}

// ---------------------------------------------------------------- payload model (C12, C14, C15, C16)
struct Made { h: Header, chroma: Vec<bool>, coefs: Vec<i16>, buf: Vec<u8>, size: usize, s: String }
fn quality(r: &mut Rng) -> u16 { match r.range(0, 3) { 0 => 1024, 1 => 1, 2 => r.range(1, 1024) as u16, _ => r.range(1, 300) as u16 } }
/// a payload made by compress_aux_data from random samples; coefs = what the entropy coder saw
fn make(r: &mut Rng, big: bool) -> Result<Made, String> {
    let q = quality(r);
    let cs = if r.b() { 1 } else { r.range(1, 255) as u8 };
    let h = header(r, q, cs, big);
    let n = n_of(&h);
    let size = h.width as usize * h.height as usize;
    let chroma: Vec<bool> = (0..n).map(|_| r.b()).collect();
    let mut aux = samples(r, n * size);
    for v in aux.iter_mut() { *v = (*v).clamp(-8000, 8000); }
    let s = format!("{} chroma {:?} aux {:?}", hdr_s(&h), chroma, &aux[..aux.len().min(200)]);
    let mut buf = vec![0u8; big_buffer(&h)];
    let size = compress_aux_data(&mut aux, &h, &chroma, &mut buf).map_err(|e| format!("{}: compression failed {:?}", s, e))?;
    ck!(size <= buf.len(), "{}: returned size {} of a buffer of {}", s, size, buf.len());
    Ok(Made { h, chroma, coefs: aux, buf, size, s })
}
/// (level, block in level) of every coded sample, per channel; level count, block tables of the payload
struct Layout { tables: Vec<(usize, Vec<usize>, usize)> } // (table offset, block sizes in bytes, end)
fn walk(h: &Header, p: &[u8]) -> Result<Layout, String> {
    let mut o = 0usize; let mut t = vec![];
    for (i, lv) in levels(h).iter().enumerate() {
        ck!(o + lv.count * 4 <= p.len(), "size table of level {} ends at {} of {}", i, o + lv.count * 4, p.len());
        let sizes: Vec<usize> = (0..lv.count).map(|k| rd32(p, o + 4 * k) * 4).collect();
        let end = o + lv.count * 4 + sizes.iter().sum::<usize>();
        ck!(end <= p.len(), "blocks of level {} end at {} of {}", i, end, p.len());
        t.push((o, sizes, end)); o = end;
    }
    Ok(Layout { tables: t })
}
fn level_of(lv: &[Lvl], x: usize, y: usize) -> usize { lv.iter().position(|l| x % l.step == 0 && y % l.step == 0).unwrap() }
fn block_of(lv: &Lvl, c: usize, x: usize, y: usize) -> usize { c * lv.nx * lv.ny + (y / lv.bs) * lv.nx + x / lv.bs }
fn chroma_q(h: &Header) -> i32 { ((h.quality as i32 + h.chroma_scale as i32 / 2) / h.chroma_scale as i32).max(1) }

/// payload computed block by block, sequentially, with the public block coder
fn reference_payload(m: &Made) -> Result<Vec<u8>, String> {
    let mut out = vec![];
    let mut a = m.coefs.clone();
    let (w, hh) = (m.h.width as usize, m.h.height as usize);
    for (i, lv) in levels(&m.h).iter().enumerate() {
        let mut blocks = vec![];
        for ch in Image::from_slice(&mut a, (w, hh), n_of(&m.h)).into_chunks_mut(lv.bs, lv.step) {
            let k = blocks.len();
            let (c, b) = (k / (lv.nx * lv.ny), k % (lv.nx * lv.ny));
            let (x0, y0) = (b % lv.nx * lv.bs, b / lv.nx * lv.bs);
            ck!(ch.channel == c && ch.x_range == (x0, (x0 + lv.bs).min(w)) && ch.y_range == (y0, (y0 + lv.bs).min(hh)) && ch.step == lv.step,
                "block {} of level {}: channel {} x {:?} y {:?}, expected channel {} x {} y {}", k, i, ch.channel, ch.x_range, ch.y_range, c, x0, y0);
            let mut o = vec![];
            { let mut wr = BitsIOWriter::new(&mut o);
              let q = if m.chroma[c] { chroma_q(&m.h) } else { m.h.quality as i32 };
              enc::encode(&ch, &mut wr, m.h.encoder, q, i == 0 && b == 0, m.chroma[c]).map_err(|e| e.to_string())?;
              wr.flush_write_word().map_err(|e| e.to_string())?; }
            blocks.push(o);
        }
        ck!(blocks.len() == lv.count, "{} blocks at level {}, expected {}", blocks.len(), i, lv.count);
        for b in &blocks { out.extend_from_slice(&((b.len() / 4) as u32).to_le_bytes()); }
        for b in &blocks { out.extend_from_slice(b); }
    }
    Ok(out)
}

// ---------------------------------------------------------------- C12
pub fn c12(r: &mut Rng, l: &mut Log) -> Res {
    match r.range(0, 3) {
        0 => { // partition
            let (w, h) = dims(r, false); let (w, h) = (w as usize, h as usize);
            let n = r.us(1, 4); let bs = r.us(1, 80); let step = r.pick(&[1usize, 2, 4, 8]);
            log!(l, "chunks of {}x{}x{} size {} step {}", w, h, n, bs, step);
            l.nontrivial = true;
            let mut v = vec![0u8; w * h * n]; let mut count = vec![0u32; w * h * n];
            let mut k = 0; let (nx, ny) = ((w + bs - 1) / bs, (h + bs - 1) / bs);
            for c in Image::from_slice(&mut v, (w, h), n).into_chunks_mut(bs, step) {
                ck!(k < nx * ny * n, "too many blocks");
                let b = k % (nx * ny); let (x0, y0) = (b % nx * bs, b / nx * bs);
                ck!(c.channel == k / (nx * ny) && c.x_range == (x0, (x0 + bs).min(w)) && c.y_range == (y0, (y0 + bs).min(h)) && c.step == step, "block {}: channel {} {:?} {:?}", k, c.channel, c.x_range, c.y_range);
                for y in c.y_range.0..c.y_range.1 { for x in c.x_range.0..c.x_range.1 { count[(c.channel * h + y) * w + x] += 1; } }
                k += 1;
            }
            ck!(k == nx * ny * n && count.iter().all(|&c| c == 1), "{} blocks; not every sample is in exactly one block", k);
        }
        1 => { // coding one block is independent of everything outside of it
            let (w, h) = dims(r, false); let (w, h) = (w as usize, h as usize);
            let n = r.us(1, 2); let k = r.range(0, 3); let step = 1usize << k; let bs = step << r.range(2, 4);
            let scheme = encoder(r); let q = r.pick(&[1024, 1, 77, 500]); let dc = r.b(); let chroma = r.b();
            let mut a = samples(r, w * h * n);
            log!(l, "block independence {}x{}x{} step {} block {} {:?} q {} data {:?}", w, h, n, step, bs, scheme, q, &a[..a.len().min(200)]);
            let cnt = ((w + bs - 1) / bs) * ((h + bs - 1) / bs) * n;
            let i = r.us(0, cnt - 1);
            let mut outs = vec![];
            let (c0, x0, y0) = (i / (cnt / n), (i % (cnt / n)) % ((w + bs - 1) / bs) * bs, (i % (cnt / n)) / ((w + bs - 1) / bs) * bs);
            for pass in 0..2 {
                let ch = Image::from_slice(&mut a, (w, h), n).into_chunks_mut(bs, step).nth(i).ok_or("missing block")?;
                let mut o = vec![];
                { let mut wr = BitsIOWriter::new(&mut o); enc::encode(&ch, &mut wr, scheme, q, dc, chroma).map_err(|e| e.to_string())?; wr.flush_write_word().map_err(|e| e.to_string())?; }
                outs.push(o);
                if pass == 0 { for c in 0..n { for y in 0..h { for x in 0..w { if c != c0 || x < x0 || x >= x0 + bs || y < y0 || y >= y0 + bs { a[(c * h + y) * w + x] = r.next() as i16; l.nontrivial = true; } } } } }
            }
            ck!(outs[0] == outs[1], "encoding of block {} depends on samples outside of it", i);
            let before = a.clone();
            { let ch = Image::from_slice(&mut a, (w, h), n).into_chunks_mut(bs, step).nth(i).ok_or("missing block")?;
              let mut s = outs[0].as_slice(); let mut rd = BitsIOReader::new(&mut s); enc::decode(ch, &mut rd, scheme, q, dc, chroma).map_err(|e| e.to_string())?; }
            for c in 0..n { for y in 0..h { for x in 0..w { let j = (c * h + y) * w + x;
                if c != c0 || x < x0 || x >= x0 + bs || y < y0 || y >= y0 + bs { ck!(a[j] == before[j], "decoding block {} wrote sample ({},{}) of channel {}", i, x, y, c); } } } }
        }
        _ => { // thread pools
            let big = r.chance(12);
            let m = make(r, big)?;
            log!(l, "{}", m.s);
            l.nontrivial = big;
            let reference = reference_payload(&m)?;
            ck!(m.buf[..m.size] == reference[..], "payload differs from the sequential one");
            pools(r, &m)?;
        }
    }
    Ok(())
}
#[cfg(feature = "par")]
fn pools(r: &mut Rng, m: &Made) -> Res {
    let mut first: Option<Vec<i16>> = None;
    let t = r.us(2, 8);
    for threads in [1, t, 8] {
        let pool = rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap();
        let out = pool.install(|| { let mut a = vec![0i16; m.coefs.len()]; decompress_aux_data(&m.buf[..m.size], &m.h, &m.chroma, 0, false, &mut a).map(|n| (n, a)) }).map_err(|e| format!("{:?}", e))?;
        ck!(out.0 == 0, "point of interest {}", out.0);
        // compress again from the decompressed samples
        let mut a = out.1.clone(); let mut b = vec![0u8; m.buf.len()];
        let n = pool.install(|| compress_aux_data(&mut a, &m.h, &m.chroma, &mut b)).map_err(|e| format!("{:?}", e))?;
        let mut v = out.1; v.extend(b[..n].iter().map(|&x| x as i16));
        match &first { None => first = Some(v), Some(f) => ck!(*f == v, "result with {} threads differs from that with one", threads) }
    }
    Ok(())
}
#[cfg(not(feature = "par"))]
fn pools(_: &mut Rng, _: &Made) -> Res { Ok(()) }

/// digest of compression and decompression of one random image; compared between builds
pub fn digest(r: &mut Rng) -> String {
    let big = r.chance(4);
    let q = quality(r);
    let cs = r.range(1, 20) as u8;
    let h = header(r, q, cs, big);
    let (p, _) = reversible_program(r, n_of(&h), true);
    let img = pixels(r, &h);
    let mut hs = 0xcbf29ce484222325u64;
    let mut add = |b: &[u8]| for &x in b { hs = (hs ^ x as u64).wrapping_mul(0x100000001b3); };
    let mut buf = vec![0u8; big_buffer(&h) + 4000];
    match compress_simple(&img, &h, &p, &mut buf) {
        Ok(n) => { add(&buf[..n]); let mut out = vec![0u8; img.len()]; let x = decompress_simple(&buf[32..n], &h, 0, false, &mut out); add(format!("{:?}", x).as_bytes()); add(&out); }
        Err(e) => add(format!("{:?}", e).as_bytes()),
    }
    format!("{:016x} {}", hs, hdr_s(&h))
}

// ---------------------------------------------------------------- C13
pub fn c13(r: &mut Rng, l: &mut Log) -> Res {
    match r.range(0, 6) {
        0 | 1 => { // whole stream, mutated
            let q = quality(r);
            let cs = r.range(1, 5) as u8;
            let h = header(r, q, cs, false);
            let n = n_of(&h);
            let (p, ps) = reversible_program(r, n, true);
            let img = pixels(r, &h);
            let mut buf = vec![0u8; big_buffer(&h) + 4000];
            let size = compress_simple(&img, &h, &p, &mut buf).map_err(err("compression"))?;
            let mut d = buf[32..size].to_vec();
            mutate(r, &mut d);
            log!(l, "{} {} payload {}", hdr_s(&h), ps, hex(&d));
            drive(r, l, &h, &d)?;
        }
        2 | 3 => { // random bytes
            let q = quality(r);
            let cs = r.range(1, 5) as u8;
            let h = header(r, q, cs, false);
            let endless = r.chance(60); // megabytes of zero bits
            let k = if endless { 3 } else { r.range(0, 3) };
            let len = if endless { 6_000_000 } else { r.us(0, 600) };
            let mut d: Vec<u8> = (0..len).map(|_| match k { 0 => r.next() as u8, 1 => (r.next() & r.next() & r.next()) as u8, 2 => (r.next() | r.next()) as u8, _ => 0 }).collect();
            if r.b() { let mut v = 0b1000111u32.wrapping_shl(25).to_le_bytes().to_vec(); v.extend_from_slice(&d); d = v; }
            log!(l, "{} payload {}", hdr_s(&h), hex(&d));
            drive(r, l, &h, &d)?;
        }
        4 => { // the sample level: valid payload with damaged tables and blocks
            let m = make(r, false)?;
            let mut d = m.buf[..m.size].to_vec();
            if r.b() { let lv = levels(&m.h); let w = walk(&m.h, &d)?; let i = r.us(0, lv.len() - 1); let k = r.us(0, lv[i].count - 1); let o = w.tables[i].0 + 4 * k;
                let v = match r.range(0, 3) { 0 => u32::MAX, 1 => 0, 2 => (rd32(&d, o) as u32).wrapping_sub(1), _ => r.next() as u32 >> r.range(0, 31) }; d[o..o + 4].copy_from_slice(&v.to_le_bytes()); }
            else { mutate(r, &mut d); }
            log!(l, "{} payload {}", m.s, hex(&d));
            l.nontrivial = true;
            let ds = r.us(0, levels(&m.h).len() - 1);
            let n = n_of(&m.h) * m.h.get_downsampled_channel_size(ds);
            let mut a = vec![GUARD; n + 8];
            let t = r.b();
            let _ = decompress_aux_data(&d, &m.h, &m.chroma, ds, t, &mut a[4..4 + n]);
            ck!(a[..4] == [GUARD; 4] && a[4 + n..] == [GUARD; 4], "wrote outside of the given buffer");
        }
        5 => { // large dimensions, of which only a few samples are asked for
            let q = quality(r); let big = |r: &mut Rng| 1 + (0x3fff_ffffu32 >> r.range(0, 30)) - r.range(0, 1) as u32;
            let (w, hh) = (big(r).max(1), big(r).max(1));
            let b = HeaderBuilder { width: w, height: hh, layers: 1, channels: r.range(1, 2) as u16, quality: q, chroma_scale: r.range(1, 5) as u8, block_size: 2 + r.range(0, 28) as u8, filter: if r.b() { Filter::Linear } else { Filter::Cubic }, encoder: Encoder::Fast, intent: Intent::Generic, metadata_size: 0 };
            let h = match b.build() { Ok(h) => h, Err(_) => return Ok(()) };
            let ds = (0..31).find(|&ds| h.get_downsampled_channel_size(ds) <= 64).unwrap();
            let ds = (ds + r.us(0, 3)).min(31);
            let n = n_of(&h) * h.get_downsampled_channel_size(ds);
            let d = vec![0u8; r.us(0, 40)];
            log!(l, "{} downsampling {} payload {}", hdr_s(&h), ds, hex(&d));
            l.nontrivial = true;
            let mut a = vec![GUARD; n + 8];
            let _ = decompress_aux_data(&d, &h, &vec![false; n_of(&h)], ds, false, &mut a[4..4 + n]);
            ck!(a[..4] == [GUARD; 4] && a[4 + n..] == [GUARD; 4], "wrote outside of the given buffer");
        }
        _ => { // buffers that do not fit
            let m = make(r, false)?;
            let nch = n_of(&m.h); let ds = r.us(0, levels(&m.h).len() - 1);
            let full = nch * m.h.get_downsampled_channel_size(ds);
            let alen = match r.range(0, 3) { 0 => r.us(0, full), 1 => full, 2 => full.saturating_sub(1), _ => full + r.us(0, 40) };
            let clen = match r.range(0, 2) { 0 => r.us(0, nch), 1 => nch, _ => nch + r.us(0, 3) };
            log!(l, "{} downsampling {} aux length {} (needs {}) chroma flags {} (needs {})", m.s, ds, alen, full, clen, nch);
            l.nontrivial = alen != full || clen != nch;
            let mut c = m.chroma.clone(); c.resize(clen, true);
            let ok = alen >= full && clen >= nch;
            let mut a = vec![GUARD; alen + 8];
            let res = decompress_aux_data(&m.buf[..m.size], &m.h, &c, ds, false, &mut a[4..4 + alen]);
            ck!(res.is_ok() == ok, "decompression gave {:?}, expected {}", res, if ok { "success" } else { "an error" });
            ck!(a[..4] == [GUARD; 4] && a[4 + alen..] == [GUARD; 4], "wrote outside of the given buffer");
            if !ok { ck!(a.iter().all(|&v| v == GUARD), "wrote into a buffer that it rejects"); }
            let full = m.coefs.len(); let alen = match r.range(0, 2) { 0 => r.us(0, full), 1 => full, _ => full + r.us(0, 40) };
            let ok = alen >= full && clen >= nch;
            let mut a = vec![GUARD; alen + 8]; let mut b = vec![0u8; m.buf.len()];
            log!(l, "compression: aux length {} (needs {})", alen, full);
            let res = compress_aux_data(&mut a[4..4 + alen], &m.h, &c, &mut b);
            ck!(res.is_ok() == ok, "compression gave {:?}, expected {}", res, if ok { "success" } else { "an error" });
            ck!(a[..4] == [GUARD; 4] && a[4 + alen..] == [GUARD; 4], "wrote outside of the given buffer");
        }
    }
    Ok(())
}
const GUARD: i16 = 0x5a5a;
fn mutate(r: &mut Rng, d: &mut Vec<u8>) {
    for _ in 0..r.us(1, 6) { if d.is_empty() { return; }
        match r.range(0, 4) { 0 => { let i = r.us(0, d.len() - 1); d[i] ^= 1 << r.range(0, 7); } 1 => { let i = r.us(0, d.len() - 1); d[i] = r.next() as u8; }
            2 => { let i = r.us(0, d.len() - 1); let j = r.us(i, d.len().min(i + 16)); for b in &mut d[i..j] { *b = 0; } }
            3 => { let n = r.us(0, d.len()); if r.chance(3) { d.truncate(n); } }
            _ => { let i = r.us(0, d.len() - 1); let j = r.us(i, d.len().min(i + 8)); for b in &mut d[i..j] { *b = 255; } } } }
}
fn drive(r: &mut Rng, l: &mut Log, h: &Header, d: &[u8]) -> Res {
    let ds = r.us(0, levels(h).len() - 1);
    let t = r.chance(5);
    let size = h.get_decompress_buffer_size(ds);
    let (w, hh) = ((h.width as usize + (1 << ds) - 1) >> ds, (h.height as usize + (1 << ds) - 1) >> ds);
    ck!(size == w * hh * n_of(h), "decompress buffer size {} for {}x{} downsampling {}", size, w, hh, ds);
    let mut out = vec![0xA5u8; size + 8];
    let res = decompress_simple(d, h, ds, t, &mut out[4..4 + size]);
    if res.is_ok() { l.nontrivial = true; }
    log!(l, "downsampling {} test {} result {:?}", ds, t, res);
    ck!(out[..4] == [0xA5; 4] && out[4 + size..] == [0xA5; 4], "wrote outside of the given buffer");
    Ok(())
}

// ---------------------------------------------------------------- C14
pub fn c14(r: &mut Rng, l: &mut Log) -> Res {
    if r.chance(4) { // whole stream
        let q = quality(r);
        let cs = r.range(1, 5) as u8;
        let h = header(r, q, cs, false);
        let (p, ps) = reversible_program(r, n_of(&h), true);
        let img = pixels(r, &h);
        let mut buf = vec![0u8; big_buffer(&h) + 4000];
        let size = compress_simple(&img, &h, &p, &mut buf).map_err(err("compression"))?;
        for _ in 0..5 {
            let d = &buf[32..r.us(32, size)];
            let ds = r.us(0, levels(&h).len() - 1);
            log!(l, "{} {} whole stream, downsampling {} prefix {} of {}", hdr_s(&h), ps, ds, d.len(), size - 32);
            l.nontrivial = true;
            let k = h.get_decompress_buffer_size(ds);
            let (mut a, mut t) = (vec![0xA5u8; k], vec![0xA5u8; k]);
            let ra = decompress_simple(d, &h, ds, false, &mut a);
            let rt = decompress_simple(d, &h, ds, true, &mut t);
            ck!(ra.as_ref().ok() == rt.as_ref().ok(), "decompress_simple in test mode reports {:?}, decoding {:?}", rt, ra);
            ck!(t.iter().all(|&v| v == 0xA5), "decompress_simple in test mode wrote into the image");
        }
        return Ok(());
    }
    let m = make(r, false)?;
    log!(l, "{}", m.s);
    let p = &m.buf[..m.size];
    let w = walk(&m.h, p)?; let lv = levels(&m.h); let n = n_of(&m.h);
    ck!(w.tables.last().unwrap().2 == m.size, "layout ends at {} of {}", w.tables.last().unwrap().2, m.size);
    for _ in 0..3 {
        let ds = if r.b() { 0 } else { r.us(0, lv.len() - 1) };
        let used = lv.len() - ds; // levels used at this resolution
        let needed = w.tables[used - 1].2;
        let (dw, dh) = ((m.h.width as usize + (1 << ds) - 1) >> ds, (m.h.height as usize + (1 << ds) - 1) >> ds);
        let mut full = vec![0i16; dw * dh * n];
        decompress_image_data(&mut full, &m.h, p, ds, false, &m.chroma).map_err(err("full decoding"))?;
        for _ in 0..5 {
            let len = match r.range(0, 5) { 0 => r.us(0, m.size), 1 => needed, 2 => needed.saturating_sub(r.us(1, 9)), 3 => { let t = &w.tables[r.us(0, lv.len() - 1)]; t.2.saturating_sub(r.us(0, 2)) }
                4 => { let t = &w.tables[r.us(0, lv.len() - 1)]; (t.0 + t.1.len() * 4 + r.us(0, 2)).saturating_sub(1).min(m.size) } _ => { let t = &w.tables[r.us(0, lv.len() - 1)]; let k = r.us(0, t.1.len()); (t.0 + t.1.len() * 4 + t.1[..k].iter().sum::<usize>() + r.us(0, 1)).min(m.size) } };
            log!(l, "downsampling {} prefix {} of {} (needed {})", ds, len, m.size, needed);
            l.nontrivial = true;
            let data = p[..len].to_vec();
            let (sa, sb) = (0x1357i16, -0x2468i16);
            let mut a = vec![sa; dw * dh * n];
            let res = decompress_image_data(&mut a, &m.h, &data, ds, false, &m.chroma);
            let mut t = vec![sb; dw * dh * n];
            let rt = decompress_image_data(&mut t, &m.h, &data, ds, true, &m.chroma);
            ck!(format!("{:?}", res.as_ref().ok()) == format!("{:?}", rt.as_ref().ok()), "test mode reports {:?}, decoding {:?}", rt, res);
            ck!(t.iter().all(|&v| v == sb), "test mode wrote samples");
            let mut t2 = vec![sb; dw * dh * n];
            let rt2 = decompress_aux_data(&data, &m.h, &m.chroma, ds, true, &mut t2);
            ck!(rt2.as_ref().ok() == res.as_ref().ok(), "decompress_aux_data in test mode reports {:?}, decoding {:?}", rt2, res);
            ck!(t2.iter().all(|&v| v == sb), "decompress_aux_data in test mode wrote samples");
            match &res {
                Ok(0) => ck!(len >= needed, "reports completeness with {} of {} bytes", len, needed),
                Ok(k) => ck!(len < needed && *k > len, "point of interest {} with {} of {} bytes", k, len, needed),
                Err(DecompressError::Underflow) => { ck!(len < needed, "underflow although complete");
                    ck!((0..used - 1).any(|i| { let t = &w.tables[i]; len >= t.0 + t.1.len() * 4 && len < t.2 }), "underflow although the prefix ends in the last level or between levels"); }
                Err(e) => return Err(format!("error {:?}", e)),
            }
            // samples
            for c in 0..n { for y in 0..dh { for x in 0..dw {
                let (fx, fy) = (x << ds, y << ds);
                let li = level_of(&lv, fx, fy); let t = &w.tables[li];
                let k = block_of(&lv[li], c, fx, fy);
                let i = (c * dh + y) * dw + x;
                let end = t.0 + t.1.len() * 4 + t.1[..=k].iter().sum::<usize>();
                // a block of the first truncated level, or of a complete level
                let present = end <= len && (0..li).all(|j| w.tables[j].2 <= len);
                if present { ck!(a[i] == full[i], "sample ({},{}) of channel {} is {} instead of {} although its block is present", x, y, c, a[i], full[i]); }
                else { ck!(a[i] == sa, "sample ({},{}) of channel {} changed although its block is missing", x, y, c); }
            } } }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C15
pub fn c15(r: &mut Rng, l: &mut Log) -> Res {
    let m = { let b = r.chance(80); make(r, b)? };
    log!(l, "{}", m.s);
    let p = &m.buf[..m.size];
    let lv = levels(&m.h); let n = n_of(&m.h); let w = walk(&m.h, p)?;
    let (fw, fh) = (m.h.width as usize, m.h.height as usize);
    let mut full = vec![0i16; fw * fh * n];
    decompress_image_data(&mut full, &m.h, p, 0, false, &m.chroma).map_err(err("full decoding"))?;
    for ds in 0..lv.len() {
        let (dw, dh) = ((fw + (1 << ds) - 1) >> ds, (fh + (1 << ds) - 1) >> ds);
        ck!(m.h.get_downsampled_width(ds) == dw && m.h.get_downsampled_height(ds) == dh && m.h.get_downsampled_channel_size(ds) == dw * dh && m.h.get_downsampled_image_size(ds) == dw * dh * n && m.h.get_decompress_buffer_size(ds) == dw * dh * n, "sizes for downsampling {}", ds);
        if ds > 0 { l.nontrivial = true; }
        let needed = w.tables[lv.len() - 1 - ds].2;
        let mut a = vec![0i16; dw * dh * n];
        let res = decompress_image_data(&mut a, &m.h, &p[..needed], ds, false, &m.chroma);
        ck!(matches!(res, Ok(0)), "downsampling {} with the {} bytes needed gave {:?}", ds, needed, res);
        let mut b = vec![0i16; dw * dh * n];
        let res = decompress_image_data(&mut b, &m.h, p, ds, false, &m.chroma);
        ck!(matches!(res, Ok(0)), "downsampling {} gave {:?}", ds, res);
        ck!(a == b, "downsampling {} depends on finer data", ds);
        for c in 0..n { for y in 0..dh { for x in 0..dw {
            let (g, e) = (a[(c * dh + y) * dw + x], full[(c * fh + (y << ds)) * fw + (x << ds)]);
            ck!(g == e, "downsampling {}: sample ({},{}) of channel {} is {} instead of {}", ds, x, y, c, g, e); } } }
    }
    // the whole pipeline also runs
    let ds = r.us(0, lv.len() - 1);
    let mut a = vec![0i16; m.h.get_downsampled_image_size(ds)];
    let res = decompress_aux_data(p, &m.h, &m.chroma, ds, false, &mut a).map_err(err("downsampled decompression"))?;
    ck!(res == 0, "point of interest {}", res);
    Ok(())
}

// ---------------------------------------------------------------- C16
pub fn c16(r: &mut Rng, l: &mut Log) -> Res {
    if r.b() {
        let m = { let b = r.chance(80); make(r, b)? };
        log!(l, "{}", m.s);
        l.nontrivial = true;
        let reference = reference_payload(&m)?;
        ck!(m.size == reference.len(), "returned size {}, tables and blocks take {}", m.size, reference.len());
        ck!(m.buf[..m.size] == reference[..], "payload differs from tables and blocks at byte {:?}", reference.iter().zip(&m.buf).position(|(a, b)| a != b));
        let w = walk(&m.h, &m.buf[..m.size])?;
        ck!(w.tables.last().unwrap().2 == m.size, "layout ends at {} of {}", w.tables.last().unwrap().2, m.size);
    }
    // other buffer sizes, from the pixels on
    let q = quality(r); let cs = r.range(1, 9) as u8;
    let h = header(r, q, cs, false);
    let (p, ps) = reversible_program(r, n_of(&h), true);
    let img = pixels(r, &h);
    log!(l, "{} {} img {}", hdr_s(&h), ps, hex(&img));
    let full = big_buffer(&h) + 4000;
    let mut buf = vec![0u8; full];
    let size = compress_simple(&img, &h, &p, &mut buf).map_err(err("compression"))?;
    ck!(size <= full, "size");
    for _ in 0..6 {
        let len = match r.range(0, 5) { 0 => r.us(0, full), 1 => r.us(0, size), 2 => r.us(size.saturating_sub(8), size + 8), 3 => r.us(0, 80), 4 => r.us(size, size * 4), _ => full + r.us(0, 100) };
        log!(l, "buffer of {} bytes (payload {})", len, size);
        let mut b = vec![0xC3u8; len + 16];
        match compress_simple(&img, &h, &p, &mut b[8..8 + len]) {
            Ok(n) => { l.nontrivial = true; ck!(n <= len, "returned size {} of a buffer of {}", n, len); ck!(n == size && b[8..8 + n] == buf[..n], "bytes depend on the buffer size {} (sizes {} and {})", len, n, size); }
            Err(_) => ck!(len < full, "a larger buffer of {} fails", len),
        }
        ck!(b[..8] == [0xC3; 8] && b[8 + len..] == [0xC3; 8], "wrote outside of the given buffer");
    }
    Ok(())
}
