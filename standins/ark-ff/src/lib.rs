//! Stand-in for ark-ff 0.3: 256-bit integers and prime fields with the same observable behaviour
//! (canonical representatives, `from_repr` refusing non-canonical integers, `From<BigInteger256>`
//! panicking on them, little-endian byte order), written for exactness, not for speed.
pub mod biginteger;
pub mod bytes;
pub mod fields;
pub use biginteger::*;
pub use bytes::*;
pub use fields::*;
pub use num_traits::{One, Zero};
