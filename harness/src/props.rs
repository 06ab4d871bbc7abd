//! The table of properties: what each check explores, in one sentence, and under
//! which assumptions.
use crate::checks::*;
use crate::report::*;

const HIST: &str = "explicit-state search to a fixpoint: every state of the real sketch(es), identified by its Debug text and \
the set of inserted values, is expanded by every operation (insert of each alphabet value, count, ...) from prepared \
states (empty, nearly full sparse, just dense, mid, full, saturated) at every precision; every transition runs the \
real code. distinct_nontrivial counts different estimates seen";
const ENUM: &str = "complete enumeration of the bounded input and state space named in the case list (mc list); every \
element runs the real code and is compared with the reference. distinct_nontrivial counts different estimates seen";
const DBG: &str = "two implementation states with equal Debug text (which lists every field of every part) behave the same";
const REF: &str = "the reference estimator (harness/src/refm.rs, tables.rs: an independent copy of the published data) is right; \
estimates within 1e-9 relative plus 2e-7 are equal";

pub fn get(id: &str, tier: Tier) -> Option<Prop> {
    type E = (&'static str, &'static str, &'static [&'static str], Vec<Case>);
    let (id, rule, assumptions, cases): E = match id {
        "P01" => ("P01", HIST, &[DBG, REF], histories::p01(tier)),
        "P02" => ("P02", HIST, &[DBG, REF], histories::p02(tier)),
        "P03" => ("P03", HIST, &[DBG, REF], histories::p03(tier)),
        "P04" => ("P04", HIST, &[DBG, REF], histories::p04(tier)),
        "P05" => ("P05", ENUM, &[REF], admit::p05(tier)),
        "P06" => ("P06", ENUM, &[REF], routes::p06(tier)),
        "P07" => ("P07", ENUM, &[REF], routes::p07(tier)),
        "P08" => ("P08", ENUM, &[REF], estim::p08(tier)),
        "P09" => ("P09", ENUM, &[REF], estim::p09(tier)),
        "P10" => ("P10", ENUM, &[REF], sparse::p10(tier)),
        "P11" => (
            "P11",
            "every precision x a geometric grid of cardinalities, each with the register contents at evenly spaced quantiles of the \
             distribution theory predicts; plus one long stream of a fixed mixing hash per precision. distinct_nontrivial counts different estimates seen",
            &["register contents at the quantiles of the theoretical distribution are typical of well-mixing hashes"],
            estim::p11(tier),
        ),
        "P12" => ("P12", ENUM, &["overflow and debug assertions are on in the build under test"], estim::p12(tier)),
        "P13" => (
            "P13",
            "explicit-state search to a fixpoint over two sketches in lock step, one of which is also counted twice, cloned (the other copy being \
             disturbed) and used as the source of merges; every state is compared with the undisturbed twin and the reference, directly and merged \
             into probes. distinct_nontrivial counts different estimates seen",
            &[DBG, REF],
            histories::p13(tier),
        ),
        "P14" => (
            "P14",
            "explicit-state search to a fixpoint over two sketches in lock step, one of which is saved and restored (JSON text, JSON value, CBOR) at \
             any moment; every state is compared with the undisturbed twin and the reference, directly and merged into probes. \
             distinct_nontrivial counts different estimates seen",
            &[DBG, "the order in which a hash set lists its elements does not matter", REF],
            histories::p14(tier),
        ),
        "P15" => (
            "P15",
            "every cyclic word of operations up to a length, over four value streams, repeated (a lasso) until many times 2^p operations were done, \
             plus long streams and merge chains, under a counting allocator. distinct_nontrivial counts different final sizes",
            &["a cycle that stays within the bound for the stated number of repetitions stays within it"],
            memory::p15(tier),
        ),
        "P17" => (
            "P17",
            "every sequence up to a length of inserts of typed values by every entry point, clones and round trips, for several hash builders; each \
             sketch must equal, alone and merged, one that received the hashes computed by a fresh hasher. distinct_nontrivial counts different estimates seen",
            &[REF],
            hashes::p17(tier),
        ),
        "P18" => ("P18", ENUM, &[REF], sparse::p18(tier)),
        "P19" => (
            "P19",
            "every hash file up to a length over an alphabet, orders and groupings of files and job counts, through the real program; \
             each output line is compared with a fresh sketch. distinct_nontrivial counts different estimates or file sizes seen",
            &["scheduling of the program's thread pool is not controlled, only its size"],
            evl::p19(tier),
        ),
        "P22" => (
            "P22",
            "every listed obstacle (unparsable line at every place, missing or unsuitable file, bad argument, precision, output that cannot be created, \
             disk full after every number of KiB) in every mode, through the real program; its exit status is compared with what was achieved. \
             distinct_nontrivial counts different outcomes",
            &["a file size limit stands for a full disk"],
            evl::p22(tier),
        ),
        "P20" => (
            "P20",
            "every sequence up to a length of inserts, counts, restarts, clones, merges and round trips over two sketches of every pairing of variants, \
             precisions and representations, in four placements (unmoved, changing places in memory, one thread each, handed between two threads by a \
             controlled scheduler); every count is compared with the reference. distinct_nontrivial counts different estimates seen",
            &["threads are interleaved at the granularity of one operation; the library has no synchronization inside one", REF],
            isolate::p20(tier),
        ),
        "P23" => (
            "P23",
            "closure under inserts, counts, merges, clones and round trips, in which every call made to the caller's code (hash builder, Hash, hasher, \
             builder's clone and serialization, writer) fails in turn, from every background and precision; and every truncation of saved forms. \
             The sketch is compared with the reference of the operations that succeeded. distinct_nontrivial counts different estimates seen",
            &["the caller's code fails by panicking (unwinding) or by returning an error, not by aborting", REF],
            faults::p23(tier),
        ),
        _ => return None,
    };
    Some(Prop { id, rule, assumptions, cases })
}
