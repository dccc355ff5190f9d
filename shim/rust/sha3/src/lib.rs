//! Stand-in for `sha3`: Keccak-256 behind the subset of the digest API in use.
pub struct Keccak256 {
    buf: Vec<u8>,
}
pub struct Output<'a>(&'a mut [u8; 32]);
impl<'a> From<&'a mut [u8; 32]> for Output<'a> {
    fn from(b: &'a mut [u8; 32]) -> Self {
        Output(b)
    }
}
pub trait Digest {
    fn new() -> Self;
    fn update(&mut self, data: impl AsRef<[u8]>);
    fn finalize_into(self, out: Output<'_>);
}
impl Digest for Keccak256 {
    fn new() -> Self {
        Keccak256 { buf: Vec::new() }
    }
    fn update(&mut self, data: impl AsRef<[u8]>) {
        self.buf.extend_from_slice(data.as_ref());
    }
    fn finalize_into(self, out: Output<'_>) {
        *out.0 = keccak256(&self.buf);
    }
}
const ROT: [u32; 25] = [0, 1, 62, 28, 27, 36, 44, 6, 55, 20, 3, 10, 43, 25, 39, 41, 45, 15, 21, 8, 18, 2, 61, 56, 14];
fn rounds() -> [u64; 24] {
    let mut rc = [0u64; 24];
    let mut lfsr = 1u8;
    for r in rc.iter_mut() {
        for j in 0..7 {
            if lfsr & 1 != 0 {
                *r |= 1 << ((1u32 << j) - 1);
            }
            lfsr = lfsr << 1 ^ if lfsr & 0x80 != 0 { 0x71 } else { 0 };
        }
    }
    rc
}
fn f(a: &mut [u64; 25], rc: &[u64; 24]) {
    for r in rc {
        let mut c = [0u64; 5];
        for x in 0..5 {
            c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
        }
        for x in 0..5 {
            let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
            for y in 0..5 {
                a[x + 5 * y] ^= d;
            }
        }
        let mut b = [0u64; 25];
        for x in 0..5 {
            for y in 0..5 {
                b[y + 5 * ((2 * x + 3 * y) % 5)] = a[x + 5 * y].rotate_left(ROT[x + 5 * y]);
            }
        }
        for x in 0..5 {
            for y in 0..5 {
                a[x + 5 * y] = b[x + 5 * y] ^ (!b[(x + 1) % 5 + 5 * y] & b[(x + 2) % 5 + 5 * y]);
            }
        }
        a[0] ^= r;
    }
}
fn keccak256(data: &[u8]) -> [u8; 32] {
    static RC: std::sync::OnceLock<[u64; 24]> = std::sync::OnceLock::new();
    let rc = RC.get_or_init(rounds);
    let mut a = [0u64; 25];
    let mut p = data.to_vec();
    p.push(1);
    while p.len() % 136 != 0 {
        p.push(0);
    }
    *p.last_mut().unwrap() |= 0x80;
    for block in p.chunks(136) {
        for (i, w) in block.chunks(8).enumerate() {
            a[i] ^= u64::from_le_bytes(w.try_into().unwrap());
        }
        f(&mut a, rc);
    }
    let mut out = [0; 32];
    for i in 0..4 {
        out[8 * i..8 * i + 8].copy_from_slice(&a[i].to_le_bytes());
    }
    out
}
