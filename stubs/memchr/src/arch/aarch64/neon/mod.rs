/*!
Algorithms for the `aarch64` target using 128-bit vectors via NEON.
*/

pub mod memchr;
pub mod packedpair;
