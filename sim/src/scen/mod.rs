//! One scenario per property.

use crate::ctx::{Ctx, R};

pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c17;
pub mod c18;
pub mod c19;

pub struct Scen {
    pub id: &'static str,
    pub run: fn(&mut Ctx) -> R,
    /// simulated runs per profile: (quick, thorough)
    pub runs: (u64, u64),
    pub checked: bool,
    pub shipped: bool,
    /// also in the build in which clients are preempted between any two steps inside yason
    pub stepped: bool,
    /// most workers to use at once (0: all cores); memory-hungry scenarios use few
    pub workers: usize,
    pub rule: &'static str,
    /// fault kinds that are expected to fire and what they are; a kind stuck at zero is reported
    pub stub: &'static str,
}

const fn is_c13(id: &str) -> bool {
    let b = id.as_bytes();
    b[1] == b'1' && b[2] == b'3'
}

macro_rules! scen {
    ($id:literal, $m:ident, $q:expr, $t:expr, $rule:expr, $stub:expr) => {
        Scen { id: $id, run: $m::run, runs: ($q, $t), checked: true, shipped: true, stepped: is_c13($id), workers: 0, rule: $rule, stub: $stub }
    };
}

pub const ALL: &[Scen] = &[
    scen!("C01", c01, 160000, 1500000,
        "one run = one document/path and one operation of yason, executed fault-free, then once per failing allocation (first, second, ...), under lasting and size- and budget-triggered exhaustion, each followed by a retry with memory back; non-trivial: at least one allocation was actually refused",
        "allocator"),
    scen!("C02", c02, 42000, 1000000,
        "one run = one document pushed into a builder with pushes refused (no memory, over-long key or string, beyond the declared count), unwound or re-entered at seeded points; non-trivial: at least one such disturbance fired",
        "allocator, caller's string/number conversions"),
    scen!("C03", c03, 160000, 4000000,
        "one run = a sequence of builders misused at seeded points (nested builder dropped, forgotten, unwound, finished early; too few or too many elements) and the operations that follow; non-trivial: at least one misuse happened",
        "allocator, caller's unwinding"),
    scen!("C04", c04, 120000, 4000000,
        "one run = a history of appends, failed appends and queries over shared caller buffers; non-trivial: at least one call failed or found stale buffer contents",
        "allocator, caller's buffers"),
    scen!("C05", c05, 120000, 2000000,
        "one run = one document built with the same steps in several environments (stale memory, addresses, capacities, retries after refused pushes, owned or by reference, clock and entropy), all results compared byte for byte; non-trivial: at least one environment fault fired",
        "allocator contents and addresses, clock, entropy"),
    scen!("C06", c06, 80000, 2000000,
        "one run = a process that stores documents and nested values on a simulated disk, crashes at seeded points, recovers and reads everything back at seeded addresses, over several generations; non-trivial: at least one crash or odd placement",
        "disk, allocator, memory placement"),
    Scen { id: "C07", run: c07::run, runs: (300_000, 6_000_000), checked: false, shipped: true, stepped: false, workers: 0,
        rule: "one run = one document cut short at seeded lengths (torn write, short read) and read through accessors, iterators, queries, equality and formatting; non-trivial: at least one truncated document was read",
        stub: "disk/link that truncates" },
    scen!("C08", c08, 200000, 4000000,
        "one run = one document or query result formatted into writers that fail, short-write, fail once or unwind at seeded points, each followed by a retry into a healthy writer; non-trivial: at least one writer failed",
        "the caller's writer"),
    scen!("C09", c09, 100000, 2500000,
        "one run = a sender replicating documents as text and through serde over a link that drops, duplicates, delays, reorders and truncates frames, with retransmission until everything is acknowledged; non-trivial: at least one link fault fired",
        "network link, reader and writer"),
    scen!("C10", c10, 80000, 4000000,
        "one run = a history of queries over several documents with reused expressions and buffers, failed and refused queries in between, every answer compared with a reference evaluator; non-trivial: at least one disturbance (failed query, stale buffer, out of memory) fired",
        "allocator, caller's buffers"),
    scen!("C11", c11, 200000, 4000000,
        "one run = one query asked through every combination of wrapper, query buffer, result buffer, exists(), function steps and formatting, with stale and failing buffers, answers compared with each other; non-trivial: at least one buffer was stale or an attempt ran out of memory",
        "allocator, caller's buffers, caller's writer"),
    scen!("C12", c12, 18000, 500000,
        "one run = one document nested close to the limit built, converted and parsed, refused pushes beyond it and continued use of the builder, then full use of the document at the limit; non-trivial: at least one push was refused for depth or memory",
        "allocator"),
    scen!("C13", c13, 15000, 1200000,
        "one run = 2 to 4 clients with their own documents, shared documents and shared path expressions, interleaved by the seeded scheduler at every allocation, writer call and operation; each client's log must equal its log when running alone; non-trivial: at least one switch of clients",
        "thread scheduler, allocator, writers, clock, entropy"),
    scen!("C14", c14, 160000, 4000000,
        "one run = two documents of equal or slightly different content that went through different histories (push order, layout of another encoder, retries, relocation, text round trip), compared in both directions, together with nested and embedded copies; non-trivial: the two histories differ",
        "allocator, peer encoder, memory placement"),
    Scen { id: "C15", run: c15::run, runs: (800, 12_000), checked: true, shipped: true, stepped: false, workers: 3,
        rule: "one run = one attempt around a size limit of the format (key length, element count, string length, container size, query result count), with what was refused and what still works afterwards; or one document with a length, count or offset next to a point where its encoding changes, built, read, formatted and queried; non-trivial: at least one such size was tried",
        stub: "allocator" },
    scen!("C16", c16, 120000, 4000000,
        "one run = documents travelling through hops that are either yason or a peer built from the format's documentation alone (any permitted layout) over a faulty link; non-trivial: at least one hop changed encoder or a link fault fired",
        "peer encoder/decoder, network link"),
    scen!("C17", c17, 10000, 1000000,
        "one run = objects filled with a seeded key set in a seeded order, with refused and failed pushes in between, then every key, near-miss and order checked; non-trivial: at least one disturbance or out-of-order push",
        "allocator"),
    Scen { id: "C18", run: c18::run, runs: (5_000, 150_000), checked: false, shipped: false, stepped: true, workers: 0,
        rule: "one run = a document of any size, up to the most elements a container can have, and a history of lookups, iterations, comparisons, formatting, building, parsing and queries on it and on values in it, undisturbed or with failing allocations and writers, refused pushes and stale buffers; the steps each takes inside yason are counted and compared with the size of what it has to look at; non-trivial: a failing call, a stale buffer or a large document",
        stub: "allocator, caller's writer, the machine's step counter" },
    scen!("C19", c19, 20000, 400000,
        "one run = one to three worlds of the other scenarios, with their faults, run as an episode and again, everything obtained dropped at the end, repeated thousands of times if anything is left; or a history of thousands of calls that are never the same; non-trivial: at least one fault fired",
        "allocator with books of every block, and the stubs of the worlds"),
];
