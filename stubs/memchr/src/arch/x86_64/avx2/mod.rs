/*!
Algorithms for the `x86_64` target using 256-bit vectors via AVX2.
*/

pub mod memchr;
pub mod packedpair;
