//! What is explored for each property

use crate::core::*;
use crate::world::*;

pub fn is_fault(id: &str) -> bool {
    matches!(id, "C16" | "C17")
}

pub fn assumptions(id: &str) -> Vec<&'static str> {
    let mut a = vec![
        "inputs and configurations outside the families (alphabets, lengths, numbers of artefacts and relations, see DESIGN.md) behave like those inside",
        "the reference model and the report readers of the harness state the property correctly",
    ];
    a.extend_from_slice(match id {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C13" | "C14" | "C15" => &[
            "requirements come from JSON artefacts; that the other parsers deliver the same is C07, C09, C10, C11",
            "the order and wording of findings is not part of the property",
        ][..],
        "C07" | "C08" => &[
            "K1 (known_findings.txt) is recognised by its exact pattern and not reported",
            "a byte order mark and Unicode normalisation are not specified",
        ],
        "C10" => &["marks in other macros' arguments, called by path, or with other separators are not specified"],
        "C11" => &["white space and key order of JSON are not part of the property"],
        "C16" => &[
            "the operations are those of the C library (open, read, readdir); failing stat is not enumerated",
            "what is kept of a file that failed is not specified",
        ],
        "C17" => &["failures that only close() would report cannot be seen by the program"],
        "C12" | "C18" | "C19" | "C22" => &["the program is run with a local file system that behaves as POSIX says"],
        "C23" => &[
            "what the program does between two accesses to the file system through the C library depends on nothing that the other run does",
            "of the writes of a run, the 1st, 2nd, 4th, 8th, ... are points where it can be preempted; reads of inputs, which nobody changes, are none",
        ],
        "C20" => &["file names are valid UTF-8"],
        "C24" => &["a run that has not ended after the time limit of the case never ends", "input files are regular files"],
        "C21" => &[
            "one file under two spellings of its path, `.*` against `.` and `..`, a final `**` are not specified",
            "no file appears or disappears during a run",
            "file names are valid UTF-8 (the glob library skips others)",
        ],
        _ => &[],
    });
    a
}

const SMALL: &[usize] = &[0, 1, 2, 4, 5];
const ALL: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7];

pub fn run(ctx: &Ctx) {
    match ctx.id.as_str() {
        "C01" => {
            worlds(ctx, P::C01);
        }
        "C02" => worlds(ctx, P::C02),
        "C03" => {
            explore_worlds(ctx, P::C03, "derived", fam_derived);
            worlds(ctx, P::C03);
        }
        "C04" => worlds(ctx, P::C04),
        "C05" => {
            crate::words::explore(ctx, P::C05);
            crate::mixed::explore(ctx, P::C05);
            explore_worlds(ctx, P::C05, "titles", |c| fam_titles(c, false));
            explore_worlds(ctx, P::C05, "titles2", |c| fam_titles(c, true));
            explore_worlds(ctx, P::C05, "titles_rel", fam_titles_rel);
            explore_worlds(ctx, P::C05, "scale", fam_scale);
            explore_worlds(ctx, P::C05, "one_problem", fam_one_problem);
            explore_worlds(ctx, P::C05, "lists", |c| fam_lists(c, ctx.q(3, 4)));
            explore_worlds(ctx, P::C05, "mut", |c| fam_mut(c, ALL, 2));
        }
        "C06" => {
            crate::words::explore(ctx, P::C06);
            crate::mixed::explore(ctx, P::C06);
            crate::order::explore(ctx);
            explore_worlds(ctx, P::C06, "one_problem", fam_one_problem);
            explore_worlds(ctx, P::C06, "dups2", |c| fam_dups(c, 2, 2, true));
            explore_worlds(ctx, P::C06, "dups3", |c| fam_dups(c, 3, 2, false));
            explore_worlds(ctx, P::C06, "dups1", |c| fam_dups(c, 1, 5, false));
            explore_worlds(ctx, P::C06, "mut", |c| fam_mut(c, ALL, 2));
            if ctx.thorough() {
                explore_worlds(ctx, P::C06, "dups3c", |c| fam_dups(c, 3, 2, true));
            }
        }
        "C07" => crate::md::run(ctx, false),
        "C08" => crate::md::run(ctx, true),
        "C09" => crate::mono::run(ctx),
        "C10" => crate::rustsrc::run(ctx),
        "C20" => crate::location::run(ctx),
        "C11" => crate::jsonrt::run_all(ctx),
        "C16" => crate::fault::run_inputs(ctx),
        "C17" => crate::fault::run_outputs(ctx),
        "C12" => crate::runs::run_rc(ctx),
        "C18" => crate::runs::run_cfg(ctx),
        "C19" => crate::runs::run_independence(ctx),
        "C21" => crate::files::run_all(ctx),
        "C22" => crate::dest::run_all(ctx),
        "C23" => crate::concur::run_all(ctx),
        "C24" => crate::ends::run_all(ctx),
        "C13" => {
            crate::words::explore(ctx, P::C13);
            crate::mixed::explore(ctx, P::C13);
            explore_worlds(ctx, P::C13, "keys", fam_keys);
            explore_worlds(ctx, P::C13, "text", fam_text);
            explore_worlds(ctx, P::C13, "pieces", |c| fam_pieces(c, ctx.q(3, 4)));
            explore_worlds(ctx, P::C13, "titles_rel", fam_titles_rel);
            explore_worlds(ctx, P::C13, "scale", fam_scale);
            explore_worlds(ctx, P::C13, "one_problem", fam_one_problem);
            explore_worlds(ctx, P::C13, "dups3", |c| fam_dups(c, 3, 2, false));
            explore_worlds(ctx, P::C13, "mut", |c| fam_mut(c, ALL, 2));
        }
        "C14" => worlds(ctx, P::C14),
        "C15" => {
            crate::words::explore(ctx, P::C15);
            crate::mixed::explore(ctx, P::C15);
            explore_worlds(ctx, P::C15, "tags2", |c| fam_tags(c, 2));
            explore_worlds(ctx, P::C15, "scale", fam_scale);
            explore_worlds(ctx, P::C15, "mut", |c| fam_mut(c, ALL, 2));
            if ctx.thorough() {
                explore_worlds(ctx, P::C15, "tags3", |c| fam_tags(c, 3));
            }
        }
        other => crate::exec::engine_error(&format!("no check for {other}")),
    }
}

/// the families that are about coverage
fn worlds(ctx: &Ctx, p: P) {
    crate::words::explore(ctx, p);
    crate::mixed::explore(ctx, p);
    explore_worlds(ctx, p, "pair", |c| fam_pair(c, 1, SCHEMES));
    explore_worlds(ctx, p, "scale", fam_scale);
    explore_worlds(ctx, p, "one_problem", fam_one_problem);
    explore_worlds(ctx, p, "star1", |c| fam_star(c, ctx.q(4, 5), 1));
    explore_worlds(ctx, p, "star2", |c| fam_star(c, ctx.q(3, 4), 2));
    explore_worlds(ctx, p, "rels1", |c| fam_rels(c, 1, false));
    explore_worlds(ctx, p, "lists", |c| fam_lists(c, ctx.q(3, 4)));
    explore_worlds(ctx, p, "mut", |c| fam_mut(c, ALL, 2));
    explore_worlds(ctx, p, "rels2", |c| fam_rels(c, 2, false));
    explore_worlds(ctx, p, "stray", |c| fam_stray(c, false));
    explore_worlds(ctx, p, "pair2", |c| fam_pair(c, 2, 1));
    if ctx.thorough() {
        explore_worlds(ctx, p, "rels_full", |c| fam_rels(c, 2, true));
        explore_worlds(ctx, p, "stray_full", |c| fam_stray(c, true));
        explore_worlds(ctx, p, "mut3", |c| fam_mut(c, SMALL, 3));
    }
}
