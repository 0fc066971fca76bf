mod c_build;
mod c_read;
mod gens;
mod prog;
mod read;

use c_build as b;
use c_read as r;
use mc::{scen, Registry};

static REG: Registry = Registry {
    harness: "rt",
    rule,
    props: &[
        ("C01", &[
            scen("fields", b::c01_fields, "tables of up to 5 (thorough: 6) fields of every size in every slot order and phase"),
            scen("scalars", b::c01_scalars, "every scalar type x boundary value x default, elided or always written"),
            scen("strings", b::c01_strings, "strings and byte strings of every length up to 600 (2100)").depth(2),
            scen("vectors", b::c01_vectors, "vectors of every scalar type, every length up to 40 (140), three constructions, eight phases"),
            scen("vector_values", b::c01_vector_values, "vectors of up to 3 boundary values"),
            scen("string_vectors", b::c01_string_vectors, "vectors of up to 70 (140) strings").depth(2),
            scen("graphs", b::c01_graphs, "all object graphs of up to 4 (5) objects plus root, with sharing"),
            scen("many_tables", b::c01_many_tables, "up to 60 (100) tables with repeating layouts").depth(2),
            scen("high_slots", b::c01_high_slots, "fields in far slots").depth(1),
            scen("finishes", b::c01_finishes, "every way to finish"),
            scen("deep", b::c01_deep, "nesting of every depth up to 300 (1000)").depth(1),
            scen("big", b::c01_big, "buffers beyond 64 KiB, also with size prefix and identifier").depth(2),
            scen("wide", b::c01_wide, "two tables of up to 140 (300) and of 255..3000 fields, equal or different in one").depth(2),
        ]),
        ("C02", &[
            scen("fields", b::c02_fields, "tables of up to 5 (thorough: 6) fields of every size in every slot order and phase"),
            scen("scalars", b::c02_scalars, "every scalar type x boundary value x default, elided or always written"),
            scen("strings", b::c02_strings, "strings and byte strings of every length up to 600 (2100)").depth(2),
            scen("vectors", b::c02_vectors, "vectors of every scalar type, every length up to 40 (140), three constructions, eight phases"),
            scen("vector_values", b::c02_vector_values, "vectors of up to 3 boundary values"),
            scen("string_vectors", b::c02_string_vectors, "vectors of up to 70 (140) strings").depth(2),
            scen("graphs", b::c02_graphs, "all object graphs of up to 4 (5) objects plus root, with sharing"),
            scen("many_tables", b::c02_many_tables, "up to 60 (100) tables with repeating layouts").depth(2),
            scen("high_slots", b::c02_high_slots, "fields in far slots").depth(1),
            scen("finishes", b::c02_finishes, "every way to finish"),
            scen("deep", b::c02_deep, "nesting of every depth up to 300 (1000)").depth(1),
            scen("big", b::c02_big, "buffers beyond 64 KiB, also with size prefix and identifier").depth(2),
            scen("wide", b::c02_wide, "two tables of up to 140 (300) and of 255..3000 fields, equal or different in one").depth(2),
            scen("limit", b::c02_limit, "tables at the limit of the 16-bit sizes").depth(2),
            scen("huge", b::c02_huge, "buffers around 2 GiB").depth(1),
        ]),
        ("C03", &[
            scen("layouts", r::c03_layouts, "12 values x every layout freedom (object order, vtable placement and sharing, vtable length, padding, field order, slack) x ident x size prefix x memory alignments"),
            scen("align", r::c03_align, "12 values x vtable placement x 16 memory addresses"),
            scen("graphs", r::c03_graphs, "all object graphs of up to 4 (5) objects x vtable placement, sharing and field order"),
            scen("scalars", r::c03_scalars, "every scalar type x boundary value x slot x layout"),
            scen("vectors", r::c03_vectors, "every scalar vector of length up to 40 (70) x layout x 8 memory alignments"),
            scen("far", r::c03_far, "far vtables and offsets around 2^15 and 2^16").depth(2),
            scen("wide", r::c03_wide, "tables of up to 140 (300) and of 255..8000 fields x layout").depth(2),
        ]),
        ("C04", &[
            scen("truncate", r::c04_truncate, "every prefix of 22 seed buffers x 10 placements (8 alignments, against unmapped pages)").depth(2),
            scen("byte", r::c04_byte, "every single-byte change of the seeds").depth(2),
            scen("word", r::c04_word, "every 16- and 32-bit word of the seeds set to every boundary value x 10 placements").depth(3),
            scen("words2", r::c04_words2, "every pair of word changes (quick: three seeds)"),
            scen("bytes2", r::c04_bytes2, "every pair of byte changes over 8 values (quick: four seeds)"),
            scen("shift", r::c04_shift, "every deletion, duplication and cut").depth(2),
            scen("short", r::c04_short, "all byte strings up to length 7 (9) over 6 structural values"),
            scen("small", r::c04_small, "all roots, vtable offsets, lengths and entries in buffers of 4..24 bytes"),
            scen("utf8", r::c04_utf8, "string contents over 20 bytes that matter for UTF-8, with, without and beyond the terminator"),
            scen("text", r::c04_text, "strings of up to 72 (140) and of 127..60000 bytes with eight byte sequences, valid and not, at every place").depth(3),
            scen("follow", r::c04_follow, "each kind of offset and skip at every place of buffers of 0..20 bytes, with 57 values, reading five types"),
        ]),
        ("C05", &[
            scen("capacity", b::c05_capacity, "six programs x every capacity up to 1200 (8192), also collapsed").depth(2),
            scen("reset", b::c05_reset, "every history stopped at every call, reset (twice), every program, six capacities").depth(3),
            scen("clone", b::c05_clone, "clone at every call; both copies continue, equally or differently").depth(3),
            scen("graphs", b::c05_graphs, "all small object graphs at capacities around their size"),
            scen("big", b::c05_big, "big programs x capacities around powers of two, after an abandoned big program").depth(3),
            scen("dirty", b::c05_dirty, "every program after a use that filled n bytes").depth(2),
        ]),
        ("C06", &[
            scen("seqs", b::c06_seqs, "all sequences of up to 5 (6) tables over 9 layouts, with and without objects between"),
            scen("many", b::c06_many, "up to 100 (300) distinct layouts, each repeated, near and far").depth(2),
            scen("reset", b::c06_reset, "after an earlier buffer stopped anywhere and reset"),
            scen("nested", b::c06_nested, "chains of nested tables"),
            scen("wide", b::c06_wide, "two tables of up to 301 (601) fields, vtables different in any two entries").depth(2),
            scen("pairs", b::c06_pairs, "all pairs of layouts over 4 slots"),
        ]),
        ("C07", &[
            scen("seqs", b::c07_seqs, "all call sequences up to depth 6 (7) over 23 calls against the protocol automaton").depth(2),
            scen("from", b::c07_from, "all call sequences of depth 5 (6) from nine non-initial states").depth(2),
            scen("args", b::c07_args, "after every accepted sequence of up to 3 (4) calls, every call with 5 lengths, every scalar type, 4 slots").depth(2),
            scen("dup", b::c07_dup, "the same field set twice, every position"),
        ]),
        ("C08", &[
            scen("all", r::c08_all, "8 element types x lengths 0..5 x all sequences of 3 (4) iterator operations, skips up to usize::MAX"),
            scen("deep", r::c08_deep, "u16 and string vectors x lengths 0..4 x all sequences of 4 (5) operations"),
            scen("long", r::c08_long, "long vectors, nth / nth_back / nth").depth(2),
            scen("huge", r::c08_huge, "8 element types x 15 lengths from 255 to 131073: every index, both directions, skips, slices").depth(2),
        ]),
        ("C09", &[
            scen("ident", b::c09_ident, "every way to finish x phases x alignments x identifiers, all identifier queries"),
            scen("graphs", b::c09_graphs, "all small object graphs x identifier x size prefix"),
            scen("bytes", b::c09_bytes, "any byte at any place of the identifier, changed with a second one, ten identifiers asked for"),
            scen("big", b::c09_big, "buffers of every size around 64 KiB and up to 16 MiB x identifier x size prefix").depth(2),
        ]),
    ],
};

fn rule(_p: &str) -> &'static str {
    "every sequence of choices of each scenario is executed once (depth-first, complete); every execution runs the real code and is compared with an independent model"
}

fn main() {
    mc::main_with(&REG)
}
