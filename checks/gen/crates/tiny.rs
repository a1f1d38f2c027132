pub fn only_one(x: i32) -> i32 { x + 1 }
