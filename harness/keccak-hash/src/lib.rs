//! keccak-hash with the permutation behind an external symbol: the symbolic engine supplies a collision-free function,
//! the native replay supplies tiny-keccak.
pub use primitive_types::H256;

extern "C" {
    fn __sym_keccak(p: *const u8, n: usize, out: *mut u8);
}

pub const KECCAK_EMPTY: H256 = H256([
    0xc5, 0xd2, 0x46, 0x01, 0x86, 0xf7, 0x23, 0x3c, 0x92, 0x7e, 0x7d, 0xb2, 0xdc, 0xc7, 0x03, 0xc0, 0xe5, 0x00, 0xb6,
    0x53, 0xca, 0x82, 0x27, 0x3b, 0x7b, 0xfa, 0xd8, 0x04, 0x5d, 0x85, 0xa4, 0x70,
]);
pub const KECCAK_NULL_RLP: H256 = H256([
    0x56, 0xe8, 0x1f, 0x17, 0x1b, 0xcc, 0x55, 0xa6, 0xff, 0x83, 0x45, 0xe6, 0x92, 0xc0, 0xf8, 0x6e, 0x5b, 0x48, 0xe0,
    0x1b, 0x99, 0x6c, 0xad, 0xc0, 0x01, 0x62, 0x2f, 0xb5, 0xe3, 0x63, 0xb4, 0x21,
]);
pub const KECCAK_EMPTY_LIST_RLP: H256 = H256([
    0x1d, 0xcc, 0x4d, 0xe8, 0xde, 0xc7, 0x5d, 0x7a, 0xab, 0x85, 0xb5, 0x67, 0xb6, 0xcc, 0xd4, 0x1a, 0xd3, 0x12, 0x45,
    0x1b, 0x94, 0x8a, 0x74, 0x13, 0xf0, 0xa1, 0x42, 0xfd, 0x40, 0xd4, 0x93, 0x47,
]);

pub fn write_keccak<T: AsRef<[u8]>>(s: T, dest: &mut [u8]) {
    let s = s.as_ref();
    let mut out = [0u8; 32];
    unsafe { __sym_keccak(s.as_ptr(), s.len(), out.as_mut_ptr()) };
    dest[..32].copy_from_slice(&out);
}
pub fn keccak<T: AsRef<[u8]>>(s: T) -> H256 {
    let s = s.as_ref();
    let mut out = [0u8; 32];
    unsafe { __sym_keccak(s.as_ptr(), s.len(), out.as_mut_ptr()) };
    H256(out)
}
pub fn keccak256(data: &mut [u8]) {
    let h = keccak(&*data);
    data[..32].copy_from_slice(&h.0);
}
