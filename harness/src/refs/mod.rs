//! Independent reference implementations (written from the standards, sharing
//! no code with the library under test).
pub mod aead;
pub mod hash;
pub mod huge;
pub mod nat;
pub mod p256;

pub fn hex(s: &str) -> Vec<u8> {
    let s: String = s.chars().filter(|c| !c.is_whitespace()).collect();
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

/// The references against published vectors.
pub fn selftest() {
    hash::selftest();
    aead::selftest();
    p256::selftest();
    nat::selftest();
    println!("reference self-test passed");
}
