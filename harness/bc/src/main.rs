#![allow(dead_code)]
#[cfg(feature = "ast")]
mod c_ast;
mod c_cli;
mod c_det;
mod c_io;
#[cfg(feature = "rpc")]
mod c_rpc;
mod c_sem;
mod c_text;
mod comp;
#[cfg(feature = "ast")]
mod conv;
mod inspect;
mod lang;
mod sem;

use mc::{scen, Registry};

static REG: Registry = Registry {
    harness: "bc",
    rule,
    props: &[
        #[cfg(feature = "ast")]
        ("C18", &[
            scen("gap1", c_ast::c18_gap1, "17 declarations, every filler at every gap, over three base layouts, and everywhere").depth(2),
            scen("gap2", c_ast::c18_gap2, "17 declarations, every pair of gaps with every pair of 8 (12) fillers").depth(3),
            scen("seqs", c_ast::c18_seqs, "all sequences of 2 (3) declarations behind 0..2 includes").depth(3),
            scen("names", c_ast::c18_names, "all pairs of 44 names in nine positions").depth(2),
            scen("fields", c_ast::c18_fields, "every type x default x attributes x documentation").depth(3),
            scen("docs", c_ast::c18_docs, "documentation of up to 3 lines in nine places").depth(3),
            scen("lengths", c_ast::c18_lengths, "names, paths, lines, comments, gaps, strings, lists and nesting of every length up to 130 (400) and some large ones").depth(2),
            scen("edits", c_ast::c18_edits, "every one-token change of 14 schemas: same verdict and same tree").depth(3),
            scen("chars", c_ast::c18_chars, "every one-character change of 14 schemas: same verdict and same tree").depth(3),
            scen("tokens", c_ast::c18_tokens, "all token sequences up to length 4 (5) in 14 contexts: same verdict and same tree").depth(3),
        ]),
        #[cfg(feature = "ast")]
        ("C19", &[
            scen("all", c_ast::c19_all, "all strings up to length 4..5 (5..6) over 12 characters in ten contexts").depth(3),
            scen("ints", c_ast::c19_ints, "every power of two and its neighbours, eight notations, ten contexts").depth(2),
            scen("floats", c_ast::c19_floats, "sign x mantissa x exponent, decimal and hexadecimal, ten contexts").depth(3),
            scen("digits", c_ast::c19_digits, "up to 60 (160) digits before and behind the point, before the exponent, in hexadecimal, ten contexts").depth(3),
            scen("words", c_ast::c19_words, "the words with every prefix and suffix, ten contexts").depth(2),
            scen("around", c_ast::c19_around, "18 literals with every filler on both sides").depth(2),
        ]),
        ("C20", &[
            scen("cuts", c_text::c20_cuts, "every prefix and suffix of 14 schemas").depth(2),
            scen("big", c_text::c20_big, "many fields, values, alternatives, types, levels").depth(2),
            scen("bytes", c_text::c20_bytes, "invalid UTF-8 at every position").depth(2),
            scen("edits", c_text::c20_edits, "every one-token deletion, duplication, swap, insertion and replacement in 14 schemas").depth(3),
            scen("chars", c_text::c20_chars, "every one-character deletion, insertion and replacement over 30 characters").depth(3),
            scen("edits2", c_text::c20_edits2, "every pair of a token deletion and a deletion or replacement").depth(3),
            scen("tokens", c_text::c20_tokens, "all token sequences up to length 4 (5) in 14 contexts").depth(3),
            scen("strings", c_text::c20_strings, "all strings up to length 4..5 (5..6) over 14 characters in 12 contexts").depth(3),
        ]),
        ("C21", &[
            scen("relations", c_sem::c21_relations, "all pairs of namespaces of depth up to 3 over two names, four kinds of types, decoys, both orders").depth(4),
            scen("orders", c_sem::c21_orders, "up to 3 declarations of every kind in four namespaces with equal and different names, all references, every order").depth(4),
            scen("orders4", c_sem::c21_orders4, "4 declarations of every kind in two (four) namespaces, all references, every order").depth(4),
            scen("uses", c_sem::c21_uses, "root statements, services and fields in every place and namespace").depth(4),
            scen("chains", c_sem::c21_chains, "chains of up to 40 (150) and some 130 to 300 dependent declarations in four orders over up to seven namespaces").depth(2),
            scen("sizes", c_sem::c21_sizes, "depth and number of namespaces, declarations and references, every number up to 70 (200) and around 256").depth(2),
            scen("graphs", c_sem::c21_graphs, "every reference graph of three tables, with and without a union, every order").depth(3),
        ]),
        ("C22", &[
            scen("redefine", c_sem::c22_redefine, "all pairs of definitions of one name, near, far and in reopened namespaces").depth(3),
            scen("undefined", c_sem::c22_undefined, "six undefined references in nine places").depth(2),
            scen("duplicates", c_sem::c22_duplicates, "equal names at every two places of fields, values, alternatives, methods").depth(3),
            scen("far", c_sem::c22_far, "twelve faults behind up to 70 (200) and around 256 right things").depth(2),
            scen("long", c_sem::c22_long, "two names of up to 70 (200) and around 256 characters that are equal or differ in one place, in eight roles").depth(3),
            scen("roles", c_sem::c22_roles, "what may be root, request and response").depth(2),
            scen("streaming", c_sem::c22_streaming, "all pairs of 16 method attributes").depth(2),
            scen("structs", c_sem::c22_structs, "struct members of every type").depth(2),
            scen("enums", c_sem::c22_enums, "every base type x values around its limits x continuations").depth(3),
            scen("defaults", c_sem::c22_defaults, "29 field types x 52 literals").depth(2),
            scen("numbers", c_sem::c22_numbers, "all assignments of six numbers to 4 (5) values and alternatives").depth(3),
        ]),
        #[cfg(feature = "rpc")]
        ("C23", &[
            scen("order", c_rpc::order, "up to 24 (60) methods in many orders").depth(2),
            scen("sizes", c_rpc::sizes, "up to 70 (130) and around 256 methods, services, namespaces, lines, types, levels").depth(2),
            scen("attributes", c_rpc::attributes, "up to 5 (8) other attributes before and behind each streaming mode").depth(3),
            scen("several", c_rpc::several, "up to 3 services in four namespaces, before and behind their types").depth(3),
            scen("methods", c_rpc::methods, "up to 2 (3) methods x names x types x streaming x documentation").depth(3),
        ]),
        ("C24", &[
            scen("files", c_io::files, "compile_fbs over input and output files that are missing, directories, no text, full, longer").depth(2),
            scen("formatter", c_io::formatter, "sixteen behaviours of the formatter x small and large code x output faults").depth(3),
            scen("reads", c_io::reads, "up to 3 short reads, interruptions and errors at any read, five chunk sizes").depth(3),
            scen("writes", c_io::writes, "up to 2 (3) short writes, interruptions and errors at any write, failing flush, buffering").depth(4),
            scen("both", c_io::both, "one read event and one write event").depth(3),
            scen("sizes", c_io::sizes, "inputs of every size around the powers of two from 2^8 to 2^18 (2^22), four paddings, five chunk sizes").depth(2),
            scen("chunks", c_io::chunks, "input chunks of every size up to 80 (400) x output chunks").depth(2),
        ]),
        ("C25", &[
            scen("seeds", c_det::seeds, "fresh processes with 400 (4000) controlled hash seeds, in two environments; the states are the orders an ordinary map takes").depth(2),
            scen("threads", c_det::threads, "fresh threads").depth(2),
            scen("history", c_det::history, "after all sequences of 2 (3) other compilations").depth(2),
        ]),
        ("C26", &[
            scen("lines", c_sem::c26_lines, "all sequences of 2 of 16 line contents in six places").depth(3),
            scen("sizes", c_sem::c26_sizes, "up to 70 (200) and some large numbers of lines, characters, documented items in seven places").depth(2),
            scen("places", c_sem::c26_places, "every pair of 17 places with 0..3 lines, the others with 0..3 lines, ordinary comments in between, both line ends").depth(3),
            scen("formatted", c_sem::c26_formatted, "single places through the formatter").depth(3),
        ]),
        ("C27", &[
            scen("script", c_cli::script, "compile_fbs: ten schemas under ten file names, relative and absolute, over an older file").depth(3),
            scen("cli", c_cli::cli, "ten schemas x five ways in x eight ways out x flags and their place x three formatters").depth(4),
        ]),
    ],
};

fn rule(_p: &str) -> &'static str {
    "every sequence of choices of each scenario is executed once (depth-first, complete); every execution runs the real compiler and is compared with an independent reference for the schema language"
}

fn main() {
    if std::env::args().nth(1).as_deref() == Some("once") {
        return c_det::once();
    }
    mc::main_with(&REG)
}
