//! Analysis markers.  Their bodies are never executed; the interpreter gives
//! them meaning: `pred` is an arbitrary user predicate, `rfunc` an arbitrary
//! user return function, `val` an arbitrary user value.
#![allow(dead_code)]
/// Identity of a user-supplied function or value.
#[derive(Clone, Copy)]
pub struct Tok(u64, u64);
#[inline(never)] pub fn pred<A>(_k: Tok, _a: A) -> bool { loop {} }
#[inline(never)] pub fn rfunc<A, R>(_k: Tok, _a: A) -> R { loop {} }
#[inline(never)] pub fn val<R>(_k: Tok) -> R { loop {} }
#[inline(never)] fn clone_val(_v: &Val) -> Val { loop {} }
#[inline(never)] fn drop_val(_v: &mut Val) { loop {} }
/// A user value; neither Debug nor Default.
pub struct Val(u64, u64);
impl Clone for Val { fn clone(&self) -> Self { clone_val(self) } }
/// A user value with Debug and Default.
pub struct DVal(u64, u64);
#[inline(never)] fn dbg_val(_v: &DVal, _f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { loop {} }
#[inline(never)] fn clone_dval(_v: &DVal) -> DVal { loop {} }
#[inline(never)] fn default_dval() -> DVal { loop {} }
impl std::fmt::Debug for DVal { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { dbg_val(self, f) } }
impl Clone for DVal { fn clone(&self) -> Self { clone_dval(self) } }
impl Default for DVal { fn default() -> Self { default_dval() } }
/// A value that may not leave its thread.
pub struct NsVal(*const u8, u64);
impl Clone for NsVal { fn clone(&self) -> Self { loop {} } }
