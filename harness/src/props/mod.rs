pub mod accum;
pub mod common;
pub mod dynamics;
pub mod files;
pub mod lists;

pub struct Property {
    pub id: &'static str,
    pub run: fn() -> Result<(), String>,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
}

const fn p(id: &'static str, run: fn() -> Result<(), String>, quick: u64, thorough: u64, rule: &'static str) -> Property {
    Property { id, run, quick, thorough, rule }
}

pub const PROPERTIES: &[Property] = &[
    p("C01", files::c01, 80000, 4000000, "one to three programs set up concurrently with generated arguments; their headers and mutated copies are read back; non-trivial: at least one own header was read back whole"),
    p("C02", files::c02, 20000, 900000, "generated configurations, files, records and foreign entries written by real programs, then analysed; non-trivial: at least two files and one configuration with a record"),
    p("C03", files::c03, 40000, 2000000, "generated samples near bin edges analysed under several binnings; non-trivial: at least one sample in range"),
    p("C04", files::c04, 50000, 2500000, "one or two failing calls, or a full disk, in a set-up or an analysis of a generated directory; non-trivial: a fault fired"),
    p("C05", files::c05, 20000, 900000, "one to three rounds of up to four concurrent analyses with leftovers of earlier ones; non-trivial: two successful analyses"),
    p("C06", files::c06, 40000, 2000000, "programs crashing at generated calls or inside writes, then restarts and analyses; non-trivial: a program crashed"),
    p("C07", files::c07, 80000, 4000000, "up to three simulation loops run alone and then interleaved, with mid-run copies; non-trivial: records were written"),
    p("C08", dynamics::c08, 400000, 20000000, "up to three concurrent callers, each a history of boundary steps in a generated system, checked step by step against the reference rule; non-trivial: a boundary was crossed"),
    p("C09", dynamics::c09, 400000, 20000000, "up to three concurrent callers, each a history of creations and renewals with forced extreme draws; non-trivial: an agent was placed"),
    p("C10", dynamics::c10, 400000, 20000000, "up to three concurrent callers, each a history of displacements and vector fills on shared generators with forced extreme draws; non-trivial: a displacement was drawn"),
    p("C11", lists::c11, 400000, 20000000, "up to three concurrent callers, each a history of clock operations; non-trivial: a clock was forked"),
    p("C12", lists::c12, 400000, 20000000, "up to three concurrent callers, each a history of list operations with removals during passes; non-trivial: a pass was completed"),
    p("C13", dynamics::c13, 400000, 20000000, "up to three concurrent callers, each a history of merges, refused merges, removals and renewals; non-trivial: a merge"),
    p("C14", files::c14, 80000, 4000000, "up to five invocations plus analyses and wrong argument counts on one machine; non-trivial: set-ups completed"),
    p("C15", dynamics::c15, 400000, 20000000, "up to three concurrent callers, each a history of force sweeps over a changing list; non-trivial: a sweep over two or more live agents"),
    p("C16", accum::c16, 40000, 2000000, "up to three concurrent callers, each several accumulators through feed-report-clear rounds with short, interrupted and failing writers and files; non-trivial: a report was delivered"),
    p("C20", files::c20, 40000, 2000000, "programs writing beside running analyses, every interleaving; non-trivial: an analysis ran while a program was writing records"),
];

pub fn find(id: &str) -> Option<&'static Property> {
    PROPERTIES.iter().find(|x| x.id == id)
}
