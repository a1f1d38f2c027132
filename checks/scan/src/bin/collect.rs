//! Hands a list of files over as the C++ side does, and prints the list that comes back.
#[allow(dead_code)]
#[path = "/repo/rs_bindings_from_cc/collect_instantiations.rs"]
mod collect_instantiations;

fn main() {
    let json = std::env::args().nth(1).unwrap();
    let out = unsafe { collect_instantiations::CollectInstantiationsImpl(ffi_types::FfiU8Slice::from_slice(json.as_bytes())) };
    let b = out.into_boxed_slice();
    println!("{}", String::from_utf8_lossy(&b));
}
