// one call of every exported generator macro: the expansions, not this file, are what is verified
use rmath::rand::*;
use rmath::*;

pub fn vp_mt19937<Sd: Seed<u32>>(sd: Sd) -> Result<MersenneTwisterRand<u32>> { mt19937!(sd) }
pub fn vp_mt19937_64<Sd: Seed<u64>>(sd: Sd) -> Result<MersenneTwisterRand<u64>> { mt19937_64!(sd) }
pub fn vp_minstd_rand0<Sd: Seed<u32>>(sd: Sd) -> Result<LinearCongruentialRand<u32>> { minstd_rand0!(sd) }
pub fn vp_minstd_rand<Sd: Seed<u32>>(sd: Sd) -> Result<LinearCongruentialRand<u32>> { minstd_rand!(sd) }
pub fn vp_ranlux24<Sd: Seed<u32>>(sd: Sd) -> Result<LaggedFibonacciRand<u32>> { ranlux24_base!(sd) }
pub fn vp_ranlux48<Sd: Seed<u64>>(sd: Sd) -> Result<LaggedFibonacciRand<u64>> { ranlux48_base!(sd) }
