// Minimal protobuf / OSM-PBF encoder used by the demonstrations.
#![allow(dead_code)]
pub fn varint(mut v: u64, out: &mut Vec<u8>) { loop { let b=(v&0x7f) as u8; v>>=7; if v==0 {out.push(b);return;} out.push(b|0x80);} }
pub fn zz(v: i64) -> u64 { ((v<<1) ^ (v>>63)) as u64 }
#[derive(Default, Clone)]
pub struct M(pub Vec<u8>);
impl M {
    pub fn new() -> M { M(Vec::new()) }
    pub fn v(mut self, f: u64, v: i64) -> M { varint(f<<3, &mut self.0); varint(v as u64, &mut self.0); self }
    pub fn b(mut self, f: u64, d: &[u8]) -> M { varint(f<<3|2, &mut self.0); varint(d.len() as u64, &mut self.0); self.0.extend_from_slice(d); self }
    pub fn m(self, f: u64, m: M) -> M { self.b(f, &m.0) }
    pub fn ps(self, f: u64, vs: &[i64]) -> M { let mut p=vec![]; for &x in vs { varint(zz(x), &mut p);} self.b(f,&p) }
    pub fn p(self, f: u64, vs: &[i64]) -> M { let mut p=vec![]; for &x in vs { varint(x as u64, &mut p);} self.b(f,&p) }
}
/// zlib stream made of stored blocks (no compressor needed)
pub fn zlib_stored(d: &[u8]) -> Vec<u8> {
    let mut o = vec![0x78, 0x01];
    let mut chunks = d.chunks(65535).peekable();
    if d.is_empty() { o.extend([1,0,0,0xff,0xff]); }
    while let Some(c) = chunks.next() {
        o.push(if chunks.peek().is_none() {1} else {0});
        let l = c.len() as u16; o.extend(l.to_le_bytes()); o.extend((!l).to_le_bytes()); o.extend_from_slice(c);
    }
    let (mut a, mut b) = (1u32, 0u32);
    for &x in d { a=(a+x as u32)%65521; b=(b+a)%65521; }
    o.extend(((b<<16)|a).to_be_bytes()); o
}
pub fn frame(kind: &str, blob: M) -> Vec<u8> {
    let hdr = M::new().b(1, kind.as_bytes()).v(3, blob.0.len() as i64);
    let mut o = (hdr.0.len() as u32).to_be_bytes().to_vec(); o.extend(&hdr.0); o.extend(&blob.0); o
}
pub fn zblob(block: &M) -> M { M::new().v(2, block.0.len() as i64).b(3, &zlib_stored(&block.0)) }
pub fn rblob(block: &M) -> M { M::new().b(1, &block.0) }
pub fn strings(ss: &[&str]) -> M { let mut m = M::new(); for s in ss { m = m.b(1, s.as_bytes()); } m }
