//! Stand-in for the built guest programs: names instead of images.
pub const MAINNET_ELF: &[u8] = b"mainnet";
pub const SEPOLIA_ELF: &[u8] = b"sepolia";
