//! An independent Keccak-256 (the reference oracle for hashes), written from the specification.

const RC: [u64; 24] = {
    // generated by the degree-8 LFSR of the specification
    let mut rc = [0u64; 24];
    let mut lfsr: u8 = 1;
    let mut round = 0;
    while round < 24 {
        let mut j = 0;
        while j < 7 {
            if lfsr & 1 == 1 {
                rc[round] |= 1u64 << ((1u32 << j) - 1);
            }
            lfsr = (lfsr << 1) ^ (if lfsr & 0x80 != 0 { 0x71 } else { 0 });
            j += 1;
        }
        round += 1;
    }
    rc
};

fn permute(a: &mut [u64; 25]) {
    for rc in RC.iter() {
        let mut c = [0u64; 5];
        for x in 0..5 {
            c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
        }
        for x in 0..5 {
            let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
            for y in 0..5 {
                a[x + 5 * y] ^= d;
            }
        }
        let mut b = [0u64; 25];
        let (mut x, mut y) = (1usize, 0usize);
        b[0] = a[0];
        for t in 0..24u32 {
            let r = ((t + 1) * (t + 2) / 2) % 64;
            let (nx, ny) = (y, (2 * x + 3 * y) % 5);
            b[nx + 5 * ny] = a[x + 5 * y].rotate_left(r);
            x = nx;
            y = ny;
        }
        for y in 0..5 {
            for x in 0..5 {
                a[x + 5 * y] = b[x + 5 * y] ^ (!b[(x + 1) % 5 + 5 * y] & b[(x + 2) % 5 + 5 * y]);
            }
        }
        a[0] ^= rc;
    }
}

pub fn keccak256(data: &[u8]) -> [u8; 32] {
    const RATE: usize = 136;
    let mut st = [0u64; 25];
    let mut buf = data.to_vec();
    buf.push(1);
    while buf.len() % RATE != 0 {
        buf.push(0);
    }
    let n = buf.len();
    buf[n - 1] |= 0x80;
    for block in buf.chunks(RATE) {
        for (i, w) in block.chunks(8).enumerate() {
            st[i] ^= u64::from_le_bytes(w.try_into().unwrap());
        }
        permute(&mut st);
    }
    let mut out = [0u8; 32];
    for i in 0..4 {
        out[i * 8..i * 8 + 8].copy_from_slice(&st[i].to_le_bytes());
    }
    out
}

/// A second hasher for the versioned tree, so that nothing depends on SHA-256 being `H`.
#[derive(Clone, Debug, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub struct Kec(Vec<u8>);

impl jmt::SimpleHasher for Kec {
    fn new() -> Self {
        Kec(vec![])
    }
    fn update(&mut self, data: &[u8]) {
        self.0.extend_from_slice(data)
    }
    fn finalize(self) -> [u8; 32] {
        keccak256(&self.0)
    }
}

pub fn selftest() {
    let hex: String = keccak256(b"").iter().map(|b| format!("{b:02x}")).collect();
    assert_eq!(hex, "c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470");
    let hex: String = keccak256(b"abc").iter().map(|b| format!("{b:02x}")).collect();
    assert_eq!(hex, "4e03657aea45a94fc7d47ba826c8d667c0d1e6e33a64a036ec44f58fa12d6c45");
}
