pub fn fine() -> i32 { 1 }
pub fn not_fine() -> i32 { "no" }
