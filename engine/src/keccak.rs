//! Keccak-256 (original padding), used for concrete inputs of the hash stub.
const RC: [u64; 24] = [
    1, 0x8082, 0x800000000000808a, 0x8000000080008000, 0x808b, 0x80000001, 0x8000000080008081, 0x8000000000008009, 0x8a, 0x88, 0x80008009, 0x8000000a,
    0x8000808b, 0x800000000000008b, 0x8000000000008089, 0x8000000000008003, 0x8000000000008002, 0x8000000000000080, 0x800a, 0x800000008000000a,
    0x8000000080008081, 0x8000000000008080, 0x80000001, 0x8000000080008008,
];
const ROT: [u32; 24] = [1, 3, 6, 10, 15, 21, 28, 36, 45, 55, 2, 14, 27, 41, 56, 8, 25, 43, 62, 18, 39, 61, 20, 44];
const PIL: [usize; 24] = [10, 7, 11, 17, 18, 3, 5, 16, 8, 21, 24, 4, 15, 23, 19, 13, 12, 2, 20, 14, 22, 9, 6, 1];
fn f(a: &mut [u64; 25]) {
    for rc in RC {
        let mut b = [0u64; 5];
        for x in 0..5 {
            b[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
        }
        for x in 0..5 {
            let t = b[(x + 4) % 5] ^ b[(x + 1) % 5].rotate_left(1);
            for y in 0..5 {
                a[5 * y + x] ^= t;
            }
        }
        let mut last = a[1];
        for i in 0..24 {
            let t = a[PIL[i]];
            a[PIL[i]] = last.rotate_left(ROT[i]);
            last = t;
        }
        for y in 0..5 {
            let mut c = [0u64; 5];
            c.copy_from_slice(&a[5 * y..5 * y + 5]);
            for x in 0..5 {
                a[5 * y + x] = c[x] ^ (!c[(x + 1) % 5] & c[(x + 2) % 5]);
            }
        }
        a[0] ^= rc;
    }
}
pub fn keccak256(data: &[u8]) -> [u8; 32] {
    let mut a = [0u64; 25];
    let mut blk = [0u8; 136];
    let mut d = data;
    loop {
        let last = d.len() < 136;
        blk = [0; 136];
        let n = d.len().min(136);
        blk[..n].copy_from_slice(&d[..n]);
        if last {
            blk[n] ^= 1;
            blk[135] ^= 0x80;
        }
        for i in 0..17 {
            let mut x = [0u8; 8];
            x.copy_from_slice(&blk[8 * i..8 * i + 8]);
            a[i] ^= u64::from_le_bytes(x);
        }
        f(&mut a);
        if last {
            break;
        }
        d = &d[136..];
    }
    let _ = blk;
    let mut o = [0u8; 32];
    for i in 0..4 {
        o[8 * i..8 * i + 8].copy_from_slice(&a[i].to_le_bytes());
    }
    o
}
#[test]
fn empty() {
    let h: String = keccak256(b"").iter().map(|b| format!("{:02x}", b)).collect();
    assert_eq!(h, "c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470");
}
