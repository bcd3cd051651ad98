//! Prime fields of many bit widths, made with the derive macro that users of the crate use.
#![allow(non_local_definitions)]
pub mod w9 {
    use ff::*;
    #[derive(PrimeField)]
    #[PrimeFieldModulus = "257"]
    #[PrimeFieldGenerator = "3"]
    pub struct Fr(FrRepr);
}
pub mod w31 {
    use ff::*;
    #[derive(PrimeField)]
    #[PrimeFieldModulus = "2114977793"]
    #[PrimeFieldGenerator = "3"]
    pub struct Fr(FrRepr);
}
pub mod w63 {
    use ff::*;
    #[derive(PrimeField)]
    #[PrimeFieldModulus = "9223372036737335297"]
    #[PrimeFieldGenerator = "3"]
    pub struct Fr(FrRepr);
}
pub mod w64 {
    use ff::*;
    #[derive(PrimeField)]
    #[PrimeFieldModulus = "18446744073692774401"]
    #[PrimeFieldGenerator = "43"]
    pub struct Fr(FrRepr);
}
pub mod w65 {
    use ff::*;
    #[derive(PrimeField)]
    #[PrimeFieldModulus = "36893488146899009537"]
    #[PrimeFieldGenerator = "3"]
    pub struct Fr(FrRepr);
}
pub mod w100 {
    use ff::*;
    #[derive(PrimeField)]
    #[PrimeFieldModulus = "1267650600228229401495444914177"]
    #[PrimeFieldGenerator = "3"]
    pub struct Fr(FrRepr);
}
pub mod w127 {
    use ff::*;
    #[derive(PrimeField)]
    #[PrimeFieldModulus = "170141183460469231731687303714994913281"]
    #[PrimeFieldGenerator = "11"]
    pub struct Fr(FrRepr);
}
pub mod w128 {
    use ff::*;
    #[derive(PrimeField)]
    #[PrimeFieldModulus = "340282366920938463463374607431415889921"]
    #[PrimeFieldGenerator = "3"]
    pub struct Fr(FrRepr);
}
pub mod w129 {
    use ff::*;
    #[derive(PrimeField)]
    #[PrimeFieldModulus = "680564733841876926926749214859996430337"]
    #[PrimeFieldGenerator = "3"]
    pub struct Fr(FrRepr);
}
pub mod w160 {
    use ff::*;
    #[derive(PrimeField)]
    #[PrimeFieldModulus = "1461501637330902918203684832716283019654607142913"]
    #[PrimeFieldGenerator = "5"]
    pub struct Fr(FrRepr);
}
pub mod w191 {
    use ff::*;
    #[derive(PrimeField)]
    #[PrimeFieldModulus = "3138550867693340381917894711603833208051177722232000479233"]
    #[PrimeFieldGenerator = "3"]
    pub struct Fr(FrRepr);
}
pub mod w192 {
    use ff::*;
    #[derive(PrimeField)]
    #[PrimeFieldModulus = "6277101735386680763835789423207666416102355444460662292481"]
    #[PrimeFieldGenerator = "6"]
    pub struct Fr(FrRepr);
}
pub mod w193 {
    use ff::*;
    #[derive(PrimeField)]
    #[PrimeFieldModulus = "12554203470773361527671578846415332832204710888927481823233"]
    #[PrimeFieldGenerator = "11"]
    pub struct Fr(FrRepr);
}
pub mod w224 {
    use ff::*;
    #[derive(PrimeField)]
    #[PrimeFieldModulus = "26959946667150639794667015087019630673637144422540572481098761633793"]
    #[PrimeFieldGenerator = "7"]
    pub struct Fr(FrRepr);
}
pub mod w250 {
    use ff::*;
    #[derive(PrimeField)]
    #[PrimeFieldModulus = "1809251394333065553493296640760748560207343510400633813116524750118156500993"]
    #[PrimeFieldGenerator = "3"]
    pub struct Fr(FrRepr);
}
pub mod w255 {
    use ff::*;
    #[derive(PrimeField)]
    #[PrimeFieldModulus = "57896044618658097711785492504343953926634992332820282019728792003940743905281"]
    #[PrimeFieldGenerator = "3"]
    pub struct Fr(FrRepr);
}
pub mod w256 {
    use ff::*;
    #[derive(PrimeField)]
    #[PrimeFieldModulus = "115792089237316195423570985008687907853269984665640564039457584007904925581313"]
    #[PrimeFieldGenerator = "3"]
    pub struct Fr(FrRepr);
}
/// the STARK prime of the experiments
pub mod stark {
    use ff::*;
    #[derive(PrimeField)]
    #[PrimeFieldModulus = "3618502788666131213697322783095070105623107215331596699973092056135872020481"]
    #[PrimeFieldGenerator = "3"]
    pub struct Fr(FrRepr);
}
