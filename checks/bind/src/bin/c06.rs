//! C06: histories of C++ code that owns Rust values.
use check_bind::{history, op_has_kind, Sim, KINDS, NAMES, TYPES};
use simkit::track::{alloc_begin, alloc_end};
use simkit::{Check, Node, Rng, TrackAlloc};

#[global_allocator]
static A: TrackAlloc = TrackAlloc;

const DIRT: [i64; 4] = [0, 0xff, 0x01, 0xd5];

fn generate(r: &mut Rng, _: u64) -> Node {
    let t = r.weighted(&[3, 3, 3, 3, 3, 2, 3, 1, 2, 1, 1]) as i64;
    let ops = history(r, 60);
    simkit::tree("case", &[t, r.range(0, 3)], ops)
}

fn run(case: &Node) {
    let t = case.ix(0, TYPES.len());
    let d = case.ix(1, DIRT.len());
    simkit::fault(&format!("dirty_storage_{:02x}", DIRT[d]));
    let mut s = Sim::new(t, DIRT[d]);
    alloc_begin();
    for o in &case.kids {
        let did = s.exec(o).is_some();
        {
            let _p = simkit::pause();
            s.describe(o, did);
            if did {
                simkit::step();
                simkit::probe(&if op_has_kind(&o.op) { format!("{} {}", o.op, KINDS[(o.a(2).unsigned_abs() % 10) as usize]) } else { o.op.clone() });
                simkit::reached(s.state() ^ NAMES.iter().position(|n| *n == o.op).unwrap_or(0) as u64);
            }
        }
        s.look();
        if simkit::failed() {
            return alloc_end(false);
        }
    }
    if s.done > 3 {
        simkit::nontrivial();
    }
    s.end();
    alloc_end(!simkit::failed());
}

fn main() {
    simkit::main(&Check {
        quick_cases: 400_000,
        rule: "a case is a type of eleven (of Rust: default, clone, move-only, unmovable, niche, over-aligned, own destructor, enum; of C++: moved by copying, move-only, not assignable), what uninitialised storage contains, and a history of up to 60 operations of C++ code on 25 cells (values, Option, Result, std::optional, rs::Movable, Vec, tuples, Slot, std::vector, fields of structs): construct, default, copy, move, assign also to itself, swap, bytewise swap, relocate, pass to and return from Rust by value, reference and inside other types, emplace, extract, destroy; after each the content of every cell is read; non-trivial: more than three operations had something to do; distinct by the whole case",
        states: "distinct (type, what every cell holds, operation)",
        real: &["cc_bindings_from_rs: the generated bindings of crate vals, by the built binary", "support/rs_std/option.h", "support/rs_std/result.h", "support/rs_std/vec.h", "support/rs_std/tuple.h", "support/movable.h", "support/internal/slot.h", "support/internal/memswap.h", "support/internal/move_assign.h", "support/bridge.h"],
        stubs: &["headers of core, alloc and std bindings are empty", "rs_std::Option and rs_std::Result of the types of C++ are specialised by hand (cpp/nat.h), as the generator writes them", "the values are handles of a registry of live values"],
        assumptions: &["clang 18 and libstdc++ stand for any compiler and library", "single thread: none of the code under test shares state"],
        expected_probes: &["self-assigned", "relocate Option", "memswap Result", "move tuple", "a_nest", "m_slot", "h_slot", "s_rotate", "l_move", "o_nested"],
        ..Check::new("C06", generate, run)
    });
}
