use gfwx::*;
pub type Res = Result<(), String>;

#[derive(Default)]
pub struct Log { pub text: Vec<String>, pub echo: bool, pub nontrivial: bool, pub hash: u64 }
impl Log {
    pub fn add(&mut self, s: String) { if self.echo { println!("  {}", s); }
        for b in s.bytes() { self.hash = (self.hash ^ b as u64).wrapping_mul(0x100000001b3); }
        self.text.push(s); }
}
#[macro_export]
macro_rules! log { ($l:expr, $($t:tt)*) => { $l.add(format!($($t)*)) } }
#[macro_export]
macro_rules! ck { ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } } }

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64, case: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ case.wrapping_mul(0xD1B54A32D192ED03) ^ 0x1234567);
        if r.0 == 0 { r.0 = 1; }
        for _ in 0..4 { r.next(); }
        r
    }
    pub fn next(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15); let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^ (z >> 31) }
    /// uniform in a..=b
    pub fn range(&mut self, a: u64, b: u64) -> u64 { a + self.next() % (b - a + 1) }
    pub fn us(&mut self, a: usize, b: usize) -> usize { self.range(a as u64, b as u64) as usize }
    pub fn i(&mut self, a: i64, b: i64) -> i64 { a + (self.next() % ((b - a + 1) as u64)) as i64 }
    pub fn b(&mut self) -> bool { self.next() & 1 == 1 }
    pub fn chance(&mut self, n: u64) -> bool { self.next() % n == 0 }
    pub fn pick<T: Copy>(&mut self, s: &[T]) -> T { s[self.us(0, s.len() - 1)] }
}

pub fn filter(r: &mut Rng) -> Filter { if r.b() { Filter::Linear } else { Filter::Cubic } }
pub fn encoder(r: &mut Rng) -> Encoder { r.pick(&[Encoder::Turbo, Encoder::Fast, Encoder::Contextual]) }

pub fn dims(r: &mut Rng, big: bool) -> (u32, u32) {
    if big && r.chance(5) { return (r.range(280, 330) as u32, r.range(280, 300) as u32); }
    if big { let a = r.range(129, 210) as u32; let b = r.range(129, 180) as u32; return (a, b); }
    match r.range(0, 9) {
        0 => (r.range(1, 3) as u32, r.range(1, 3) as u32),
        1 => (1, r.range(1, 70) as u32),
        2 => (r.range(1, 70) as u32, 1),
        3 => (r.pick(&[2, 4, 8, 16, 32, 15, 17, 31, 33, 63, 65]), r.pick(&[2, 4, 8, 16, 32, 15, 17, 31, 33])),
        4 => (r.range(40, 140) as u32, r.range(2, 9) as u32),
        5 => (r.range(2, 9) as u32, r.range(40, 140) as u32),
        _ => (r.range(1, 40) as u32, r.range(1, 40) as u32),
    }
}

pub fn header(r: &mut Rng, quality: u16, chroma_scale: u8, big: bool) -> Header {
    let (width, height) = dims(r, big);
    let (layers, channels) = match r.range(0, 5) { 0 => (1, 1), 1 => (1, 3), 2 => (1, 4), 3 => (2, 2), 4 => (3, 1), _ => (r.range(1, 2) as u16, r.range(1, 5) as u16) };
    let block_size = match r.range(0, 4) { 0 => 2, 1 => 3, 2 => 7, 3 => r.range(2, 30) as u8, _ => r.range(2, 5) as u8 };
    HeaderBuilder { width, height, layers: if big { 1 } else { layers }, channels: if big { channels.min(3) } else { channels }, quality, chroma_scale, block_size,
        filter: filter(r), encoder: encoder(r), intent: Intent::Generic, metadata_size: 0 }.build().expect("builder must accept")
}
pub fn hdr_s(h: &Header) -> String {
    format!("header {}x{} layers {} channels {} quality {} chroma_scale {} block_size {} {:?} {:?}", h.width, h.height, h.layers, h.channels, h.quality, h.chroma_scale, h.block_size, h.filter, h.encoder)
}

/// pixel data of various statistics
pub fn pixels(r: &mut Rng, h: &Header) -> Vec<u8> {
    let n = h.width as usize * h.height as usize * h.layers as usize * h.channels as usize;
    let (w, c) = (h.width as usize, h.channels as usize);
    let kind = r.range(0, 8);
    let a = r.range(0, 255) as u8; let b = r.range(0, 255) as u8; let t = r.us(1, 20); let m = r.us(1, 9);
    (0..n).map(|i| { let (x, y) = ((i / c) % w, (i / c) / w); match kind {
        0 => a, 1 => r.next() as u8, 2 => if r.b() { 0 } else { 255 }, 3 => ((x * m + y * 3) / 2) as u8,
        4 => if r.chance(40) { r.next() as u8 } else { a }, 5 => if (x / t + y / t) % 2 == 0 { 0 } else { 255 },
        6 => if ((x / t) + i % c) % 2 == 0 { a } else { b }, 7 => ((x * x + y * m) / 7 + i % c * 40) as u8,
        _ => if r.chance(9) { r.next() as u8 } else { (x + y) as u8 } } }).collect()
}

/// transforms with distinct destinations, no self reference, positive denominators
pub fn reversible_program(r: &mut Rng, n: usize, chroma: bool) -> (ColorTransformProgram, String) {
    let mut p = ColorTransformProgram::new();
    let mut s = String::from("program");
    if n == 3 && r.chance(3) {
        return match r.range(0, 3) { 0 if chroma => (ColorTransformProgram::rgb_to_yuv(), "rgb_to_yuv".into()), 1 if chroma => (ColorTransformProgram::rgb_to_a710(), "rgb_to_a710".into()),
            2 if chroma => (ColorTransformProgram::bgr_to_a710(), "bgr_to_a710".into()), _ => (p, "empty".into()) };
    }
    let mut order: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() { let j = r.us(0, i); order.swap(i, j); }
    let k = r.us(0, n.min(4));
    for &d in &order[..k] {
        let mut b = ChannelTransformBuilder::with_dest_channel(d);
        s += &format!(" [{}:", d);
        if n > 1 { for _ in 0..r.us(0, 3) {
            let mut src = r.us(0, n - 1); if src == d { src = (src + 1) % n; }
            let f = match r.range(0, 4) { 0 => -1, 1 => 1, 2 => r.i(-3, 3), 3 => r.i(-300, 300), _ => r.i(-40000, 40000) } as isize;
            b.add_channel_factor(src, f); s += &format!(" {}*{}", src, f);
        } }
        let den = match r.range(0, 5) { 0 => r.range(1, 32767), 1 => 2, 2 => 4, 3 => r.range(1, 9), _ => 1 } as isize;
        if den != 1 || r.b() { b.set_denominator(den); }
        if chroma && r.b() { b.set_chroma(); s += " chroma"; }
        s += &format!(" /{}]", den);
        p.add_channel_transform(b.build());
    }
    (p, s)
}

/// 16-bit samples of various statistics
pub fn samples(r: &mut Rng, n: usize) -> Vec<i16> {
    let kind = r.range(0, 8); let amp = r.pick(&[1i64, 2, 5, 30, 255, 2040, 5000, 16000]); let sp = r.range(2, 60);
    let mut run = 0usize; let z = r.us(1, 400);
    (0..n).map(|i| match kind {
        0 => r.next() as i16, 1 => r.i(-amp, amp) as i16, 2 => if r.chance(sp) { r.i(-amp, amp) as i16 } else { 0 },
        3 => r.pick(&[i16::MIN, i16::MAX, 0, -1, 1, i16::MIN + 1]), 4 => 0, 5 => if run > 0 { run -= 1; 0 } else { run = r.us(0, z); r.i(-amp, amp) as i16 },
        6 => (i as i64 * amp / 50) as i16, 7 => r.i(-1, 1) as i16, _ => if r.chance(50) { r.next() as i16 } else { r.i(-amp.min(3), amp.min(3)) as i16 },
    }).collect()
}

#[derive(Clone, Debug)]
pub struct Lvl { pub step: usize, pub bs: usize, pub nx: usize, pub ny: usize, pub count: usize }
/// level geometry from the format description
pub fn levels(h: &Header) -> Vec<Lvl> {
    let (w, hh) = (h.width as usize, h.height as usize);
    let mut step = 1; while step * 2 < w || step * 2 < hh { step *= 2; }
    let mut v = vec![];
    loop {
        let bs = step << h.block_size;
        let (nx, ny) = ((w + bs - 1) / bs, (hh + bs - 1) / bs);
        v.push(Lvl { step, bs, nx, ny, count: nx * ny * h.layers as usize * h.channels as usize });
        if step == 1 { break; }
        step /= 2;
    }
    v
}
/// generous buffer length for compression of h
pub fn big_buffer(h: &Header) -> usize {
    let (w, hh) = (h.width as usize, h.height as usize);
    levels(h).iter().map(|l| { let px = ((l.bs / l.step).min(w / l.step + 1)) * ((l.bs / l.step).min(hh / l.step + 1)); l.count * (4 + px * 16 + 64) }).sum::<usize>() + 4096
}
pub fn rd32(b: &[u8], o: usize) -> usize { u32::from_le_bytes([b[o], b[o + 1], b[o + 2], b[o + 3]]) as usize }
pub fn hex(b: &[u8]) -> String { b.iter().take(400).map(|x| format!("{:02x}", x)).collect::<String>() }
