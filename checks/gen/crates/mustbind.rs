pub fn fine() -> i32 { 1 }
#[doc = "CRUBIT_ANNOTATE: must_bind="]
pub fn cannot() -> std::collections::HashMap<u8, u8> { Default::default() }
#[doc = "CRUBIT_ANNOTATE: must_bind="]
pub fn cannot_either<T>(_: T) {}
