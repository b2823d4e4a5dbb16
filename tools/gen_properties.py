#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "Coverage along a relation is exactly what the references claim",
  "For every graph of artefacts and relations, the trace of a relation lists upper requirement U (of the upper artefact) as covered by lower requirement D (of one of the lower artefacts) exactly when D names U's id in its Covers list or U names D's id in its Depends list. Every such reference yields its own entry, with the reference's own location and direction, in every relation that connects the two artefacts; ids match only if they are identical, and nothing else is ever listed as covered.",
  ["inputs", "configurations"], "all sets of artefacts, requirements, references and relations (an artefact at most once per relation)",
  "Two data tests trace one upper and one lower requirement over one relation; no test has two lower artefacts with competing references, several references per requirement, several relations or near-miss ids.",
  ["src/trace.rs", "src/models.rs", "src/aggregator.rs"],
  [("per relation: look up depends ids in the lower artefacts, and covers ids that point at the upper requirement", "src/trace.rs trace_relation"), ("index of covering requirements per artefact", "src/trace.rs add_artefact")],
  ["Trace/Json report traced_relations[].covered", "Trace/Markdown report, Upwards/Downwards Tracing"],
  [("requirements_that_cover", "which requirements of an artefact reference a given upper id", "src/trace.rs TracedArtefact"), ("requirements_by_id", "requirements an artefact contributes", "src/trace.rs TracedArtefact")])
p("C02", "Uncovered requirements and unused relations are reported exactly",
  "Along every relation, exactly those requirements of the upper artefact that no requirement of the relation's lower artefacts covers are reported as uncovered, in the JSON, Markdown and GNU-error trace reports alike, even when they are covered along another relation. A relation along which no requirement at all is covered is reported as an error, and no other relation is.",
  ["inputs", "configurations"], "all graphs; all relation sets, including several relations with the same upper artefact",
  "No data test contains an uncovered requirement or an unused relation.",
  ["src/trace.rs", "src/formatters/markdown.rs", "src/formatters/gnuerr.rs"],
  [("is_covered / any_req_covered flags per upper requirement and relation", "src/trace.rs trace_relation"), ("Uncovered sections", "src/formatters/*.rs tracing")],
  ["Trace reports: uncovered lists, UnusedRelation errors"])
p("C03", "Derived requirements are reported exactly",
  "A requirement is reported as derived exactly when it covers no requirement along any relation and its artefact does not ignore derived requirements. An artefact ignores them as configured, and without configuration exactly when it is the lower artefact of no relation. The JSON, Markdown and GNU-error trace reports agree on the derived requirements.",
  ["inputs", "configurations"], "all graphs, all combinations of the ignore setting and positions in the graph",
  "One data test reports one derived requirement (an id that is also a duplicate); the default for root artefacts and coverage by several relations or from above are not sampled.",
  ["src/trace.rs", "src/controller.rs", "src/formatters/markdown.rs", "src/formatters/gnuerr.rs"],
  [("derived set per artefact, shrunk by every coverage", "src/trace.rs add_artefact, trace_relation"), ("default from is_root", "src/controller.rs Controller::new")],
  ["Trace reports: derived lists"])
p("C04", "References that no relation resolves are always reported",
  "Every Covers or Depends reference that is resolved along no relation (unknown id, wrong direction, or artefacts that no relation connects) is reported as an error that names the referencing requirement, the referenced id and the location of the reference. A requirement that references the same unresolved id several times in the same direction may be reported once for it. No reference that is resolved along some relation is reported this way.",
  ["inputs", "configurations"], "all graphs and references",
  "No test contains an unresolvable reference.",
  ["src/trace.rs", "src/formatters/markdown.rs", "src/formatters/gnuerr.rs"],
  [("sets of links not yet seen valid, emptied while tracing and turned into errors at the end", "src/trace.rs invalid_covers_links, invalid_depends_links, validate_*")],
  ["Trace reports: errors about unknown requirements"],
  [("invalid_covers_links", "(covered id, covering id) pairs not resolved so far", "src/trace.rs Tracer"), ("invalid_depends_links", "(depending id, depended id) pairs not resolved so far", "src/trace.rs Tracer")])
p("C05", "Titles in references are validated exactly",
  "A resolved reference that carries a title is reported as having the wrong title exactly when that title is not identical to the title of the requirement it references. A resolved reference without a title is reported exactly when the artefact of the referenced requirement demands references with title, and in such an artefact every requirement that has no title is itself reported. Each report about a reference names the referenced requirement and the location of the reference.",
  ["inputs", "configurations"], "all titles, directions and settings",
  "One data test samples missing titles; wrong titles are not tested at all.",
  ["src/trace.rs", "src/controller.rs", "src/formatters/markdown.rs", "src/formatters/gnuerr.rs"],
  [("title comparison while recording a coverage", "src/trace.rs trace_relation"), ("RequirementWithoutTitle", "src/controller.rs Controller::new")],
  ["Trace and Parse reports: title errors"])
p("C06", "Two definitions of one id are always reported, and the first stays traced",
  "Whenever an id is defined more than once, within one artefact or in several, every definition after the first (in file order within an artefact, in order of artefact ids across artefacts) is reported as a duplicate together with the locations of both definitions, and which of them came first. Within an artefact the first definition is the one that is kept, and across artefacts the Covers references that count are those of the first; the rest of the trace is as if each duplicate's report were the only change.",
  ["inputs", "configurations"], "all distributions of equal ids over files and artefacts",
  "Two data tests sample one duplicate pair each.",
  ["src/controller.rs", "src/trace.rs", "src/formatters/markdown.rs", "src/formatters/gnuerr.rs"],
  [("occupied map entry becomes an error", "src/controller.rs parse_from_config; src/trace.rs add_artefact")],
  ["Parse and Trace reports: duplicate requirement errors, traced relations"])
p("C07", "Markdown artefacts yield exactly the requirements they state",
  "From any Markdown document, every heading of the form `ID: Title` yields one requirement with that id, title and line number, that extends up to the next requirement or heading of the same or a higher level. It carries all paragraphs of its description, every reference of its Covers and Depends attributes (comma list and bullet list) with the title and line number of each, and the lines of text of its other attributes; nothing outside a requirement becomes one. The kind of line ending and a missing final newline make no difference.",
  ["inputs"], "all documents",
  "One unit test parses one document and does not look at description, attributes or locations; the data tests hold seven tiny documents.",
  ["src/parsers/markdown.rs"],
  [("line classification regexes", "src/parsers/markdown.rs REQUIREMENT_LINE, ATTRIBUTE_LINE, REF_LINK_LINE"), ("state machine over line events", "src/parsers/markdown.rs parse_states")],
  ["Parse/Json report requirements", "Parse/Markdown report"],
  [("State", "what the parser is collecting", "src/parsers/markdown.rs"), ("req_under_construction", "requirement not committed yet", "src/parsers/markdown.rs Context")])
p("C08", "Markdown errors are located exactly, complete, and never fatal",
  "In any Markdown document, a line in a requirement where an attribute or a reference bullet was required is reported as a format error with the file and line number, and a repeated attribute (for Covers and Depends: one that already holds references) as a duplicate attribute with its line, its name and the requirement's id; no error is reported for a document without such lines. After an error the parser continues with the next requirement or heading, so every other requirement is read as if the error were not there, and what was read of the erroneous requirement before the error is kept. No document, whatever its bytes, makes the tool crash.",
  ["inputs"], "all documents, all byte strings",
  "One data test with four error lines; blank lines, last lines without newline, errors in the last requirement and arbitrary bytes are not sampled.",
  ["src/parsers/markdown.rs"],
  [("error and return to looking for a requirement", "src/parsers/markdown.rs parse_state_line"), ("duplicate attribute check", "src/parsers/markdown.rs start_attribute")],
  ["Parse/Json report errors", "Parse/Markdown report Input Errors"])
p("C09", "A mono-requirement file yields one requirement with all its arrows",
  "Any mono-requirement file yields exactly one requirement, whose id is the file's stem, whose title is the first line that contains a word character with the non-word characters around it removed, and which depends on every requirement id that immediately follows a fat arrow (`=>`), in order, each with its line number. A colon after the id adds the rest of the line, up to the next arrow, as the title of the reference.",
  ["inputs"], "all documents and file names",
  "One unit test with two arrows in one document.",
  ["src/parsers/monoreq.rs"],
  [("arrow regex per line", "src/parsers/monoreq.rs REF_LINK_LINE"), ("stem of the path", "src/parsers/monoreq.rs parse")],
  ["Parse/Json report"])
p("C10", "Every Rust coverage mark is attributed to its item",
  "In any Rust file that parses, every requirement_covered! mark with an id, or with an id and a string title, outside the arguments of other macros yields a reference with that id, title and position, and it belongs to the requirement named by the path of modules, impls, traits and functions around it; marks in the same item share one requirement, in source order. A malformed mark is reported with its position, a file that does not parse is reported with the position of the error, and neither stops the other marks or files from being read.",
  ["inputs", "programs"], "all Rust source files",
  "Two unit tests with one mark each, in the same nesting.",
  ["src/parsers/rust.rs"],
  [("syntax tree visitor with a scope stack", "src/parsers/rust.rs Parser"), ("mark argument parsing", "src/parsers/rust.rs parse_macro")],
  ["Parse/Json report", "Trace/Json report"],
  [("scope", "path of the enclosing items", "src/parsers/rust.rs Parser"), ("locations", "positions of the enclosing items", "src/parsers/rust.rs Parser")])
p("C11", "JSON export and import lose nothing",
  "For any requirements, the JSON requirement export contains every requirement, sorted by id, with every field, and every input error; reading it back as a JSON artefact yields the same requirements, field by field, and hence the same reports. A bare list of requirement objects is accepted as well; JSON that is neither, or of an unsupported version, is reported as a format error of that file.",
  ["inputs", "histories"], "all requirement sets; export/import chains",
  "One data test exports four requirements without references or attributes; nothing exported is ever read back.",
  ["src/formatters/serialize.rs", "src/formatters/mod.rs", "src/controller.rs", "src/models.rs"],
  [("serde derive of the requirement model", "src/models.rs"), ("JSON artefact reader", "src/controller.rs parse_single_file")],
  ["Parse/Json report", "reports of a second run that imports the first run's export"])
p("C12", "The result code tells exactly whether the requested jobs found problems",
  "A run exits with 1 exactly when some job it ran that sets the return code found a problem, with 2 when a job could not be run or its report not be written, and with 0 otherwise. A Parse job finds a problem exactly when an artefact has an input error; a Trace job also when there is a tracing error, an uncovered requirement or a derived requirement. A job sets the return code unless configured not to; order, repetition and formats of the jobs make no difference, and without job arguments the default jobs are run.",
  ["configurations", "histories"], "all problem combinations, all job sequences and settings",
  "One test with one misconfigured artefact and two Parse jobs; no test of Trace results per kind of problem, and none of the process exit code.",
  ["src/controller.rs", "src/main.rs"],
  [("success accumulation", "src/controller.rs run, run_jobs"), ("exit code mapping", "src/main.rs main_rc")],
  ["process exit code", "result of running jobs"])
p("C13", "Every report format shows every finding and every requirement",
  "Every error, uncovered requirement and derived requirement of a trace appears in the JSON, the Markdown and the GNU-error trace report, and every input error in each Parse report in JSON or Markdown, an error about a place in a file with that place; a report shows no finding that the trace does not have. The Markdown reports show every requirement with id, title, origin, description and other attributes, and the Parse report also its references; all requirements appear, in order of their ids per artefact (trace) or overall (parse).",
  ["inputs", "configurations"], "all graphs, all combinations of findings",
  "Seven data tests compare the Markdown report only; the GNU-error and JSON trace reports are never looked at.",
  ["src/formatters/markdown.rs", "src/formatters/gnuerr.rs", "src/formatters/mod.rs", "src/formatters/serialize.rs"],
  [("one writer per error kind", "src/formatters/markdown.rs err; src/formatters/gnuerr.rs errors")],
  ["all report files"])
p("C14", "The traceability matrix shows every coverage from both ends",
  "In the Markdown trace report, every covered pair appears under the upper requirement's Downwards Tracing and under the lower requirement's Upwards Tracing, in the section of its relation and with the reference's location, and nothing else appears there. Every relation below the requirement's artefact is listed under Downwards Tracing, marked UNCOVERED exactly when no entry follows, and every relation above under Upwards Tracing; a requirement without any upward entry is marked Derived.",
  ["inputs", "configurations"], "all traced graphs",
  "The data tests show at most three entries in one relation.",
  ["src/aggregator.rs", "src/formatters/markdown.rs"],
  [("cross reference tables built from the traced relations", "src/aggregator.rs AggregatedGraph::new"), ("matrix entries", "src/formatters/markdown.rs traced_requirement")],
  ["Trace/Markdown report, Requirements section"])
p("C15", "The tags file locates every requirement and is sorted",
  "The tags export contains, after the header, exactly one line per requirement that has a line number, with its id, its file, its line and the kind r, and no other line. If ids start with a letter or an underscore, all lines, header included, are in byte order, so that editors can search the file by bisection.",
  ["inputs"], "all requirement sets",
  "No test produces a tags file.",
  ["src/formatters/tags.rs"],
  [("collect, sort, write", "src/formatters/tags.rs requirements")],
  ["Parse/Tags report"])
p("C16", "Input failures are reported and stay contained",
  "Whatever fails while reading the inputs (a missing file, a refused open, a read error at any point, short or interrupted reads, invalid UTF-8), the run ends normally with a report that names the failing file, or reads on where nothing is lost, and the requirements of all other files are reported as if nothing had happened (what is kept of the failing file itself is not specified). A failure never makes a run look successful, and the size in which data arrives never changes any report.",
  ["fault_sequences", "inputs"], "every read or open operation, every kind of failure",
  "One data test has a missing file; no test makes a read fail.",
  ["src/controller.rs", "src/parsers/markdown.rs", "src/parsers/monoreq.rs", "src/parsers/rust.rs"],
  [("open error becomes an artefact error", "src/controller.rs parse_single_file, parse_multiple_files"), ("read errors", "src/parsers/*.rs parse")],
  ["exit code and reports under injected faults"])
p("C17", "A report that was not written completely is never called a success",
  "If creating or writing any part of a job's report fails, on a file or on standard output, at any write, the run exits with 2 and names the failure on standard error. Partial and interrupted writes that the system lets the program continue never change the resulting report.",
  ["fault_sequences"], "every write or create operation of every report format, every kind of failure",
  "No test makes a write fail.",
  ["src/controller.rs", "src/formatters/mod.rs", "src/formatters/markdown.rs", "src/formatters/gnuerr.rs", "src/formatters/tags.rs", "src/main.rs"],
  [("write results are propagated", "src/controller.rs run"), ("exit code 2", "src/main.rs main_rc")],
  ["exit code, output file contents, standard error under injected faults"])
p("C18", "An invalid configuration is refused with exit code 2, without a crash",
  "A configuration that cannot be read or parsed, has an unsupported version, names an unknown artefact in a relation, defines an artefact id twice, or a run that names an unknown job, has no default jobs, or asks for a report in a format that does not exist for it, ends with exit code 2 and a message that names the offender, never with a crash. With an unknown job or such a configuration no job is run at all. Every configuration without such mistakes is accepted.",
  ["configurations"], "all configurations",
  "No test has an invalid configuration.",
  ["src/main.rs", "src/controller.rs", "src/formatters/mod.rs"],
  [("config validation", "src/main.rs get_config; src/controller.rs Controller::new"), ("jobs are looked up before any is run", "src/controller.rs run_jobs_by_name")],
  ["exit code, standard error, absence of report files"])
p("C19", "A report depends on nothing but the inputs and the configuration",
  "The report of a job is the same bytes whichever jobs were run before it in the same run or earlier ones, in whatever order and however often, whatever the report file contained before, and wherever an earlier run was interrupted; input files are never changed. The order in which artefacts are configured never changes a report, the order of relations only the order in which relations are listed, and logging settings none.",
  ["histories", "crash_points", "configurations"], "all job histories, interruption points and permutations of the configuration",
  "The tests run one or two jobs once each.",
  ["src/controller.rs", "src/trace.rs", "src/formatters/mod.rs", "src/main.rs"],
  [("controller is not changed by running jobs", "src/controller.rs run"), ("ordered maps everywhere", "src/models.rs Graph"), ("truncating create", "src/controller.rs run")],
  ["report files after job histories"])
p("C20", "Printed locations read back as the same place",
  "A location printed as file, file:line or file:line:column is parsed back to the same file, line and column, for every file name that does not itself end in a colon and (ASCII) digits. A text is refused only if it is empty, has a line feed, or holds a number that is too large.",
  ["inputs"], "all locations and texts",
  "Seven unit tests sample one text each; none prints a location.",
  ["src/models.rs"],
  [("location regex", "src/models.rs Location::parse"), ("Display", "src/models.rs Location")],
  ["location text in reports"])
p("C21", "An artefact consists of exactly the configured files",
  "A multi-file artefact reads every file that its configured patterns and paths match, relative to the base directory or absolute, once even if several match it, and no other, and a single-file artefact its one file; the trace export lists exactly the files that were consulted. A path or pattern that matches nothing or is malformed is reported as an error of the artefact, without losing the files that the others match.",
  ["configurations", "inputs"], "all path lists and directory trees",
  "No test configures a pattern or more than one path.",
  ["src/controller.rs"],
  [("glob expansion relative to the base directory", "src/controller.rs glob_paths"), ("files field of the artefact", "src/controller.rs parse_from_config")],
  ["Trace/Json report artefacts[].files and requirements"])
p("C22", "A report goes exactly where its job says, and nothing else is touched",
  "The report of a job is written to the job's configured file, taken relative to the base directory unless it is absolute, following symbolic links; missing directories are created, and previous contents are replaced completely. With `-` the report goes to standard output, which holds nothing but the reports of the jobs that go there, one after the other in the order the jobs are run, whatever the logging settings. Apart from the report files of the jobs that were run and the directories for them, a run creates, changes and removes nothing.",
  ["configurations", "histories"], "all report paths, base directories, job lists and previous file contents",
  "The tests write one report per run into one fixed directory and look at that file only.",
  ["src/controller.rs", "src/main.rs"],
  [("resolution and creation of the output", "src/controller.rs Controller::run"), ("options -b and -c", "src/main.rs Arguments")],
  ["snapshot of the directory tree before and after the run", "standard output"])
p("C23", "Runs at the same time do not disturb each other",
  "Runs that take place at the same time, in the same project or in different ones, and whose jobs write to different files (or are the same job), end with the result, the reports and the standard output that each of them has alone, however their accesses to the file system interleave, also when both need the same missing directories. They leave nothing else behind.",
  ["schedules", "configurations"], "all interleavings of the file system accesses of two runs with up to 2 (thorough 3) preemptions, all places of the two reports",
  "No test starts two runs at once; a race between looking at a path and creating it needs one particular schedule.",
  ["src/controller.rs", "src/main.rs"],
  [("directories are created with create_dir_all, which accepts those that another run has made", "src/controller.rs Controller::run"), ("no temporary files, every report is written in place", "src/controller.rs Controller::run")],
  ["exit codes, report files, standard output and directory tree after both runs"])
p("C24", "Every run ends by itself, whatever the inputs hold",
  "Whatever bytes the input files hold (any text of any length, characters of any width, invalid UTF-8, incomplete or nested structures) and whatever the arguments are, a run ends by itself with exit code 0, 1 or 2: it neither crashes nor hangs. With a valid configuration and reports that can be written, no content of an input makes it end with 2, and every report is complete (JSON that parses, a last line that ends). Exit code 2 comes with a message.",
  ["inputs", "arguments"], "all sequences of up to 3 (thorough 4) pieces per parser, all pairs (triples) of kinds of characters, all lengths and words at every place of every kind of input, through all reports; all nestings; reference graphs with up to 3 (4) references, also in circles; many of each thing; pieces at every place of the configuration; all argument lists up to 3 (4)",
  "A slice in the middle of a character, a subtraction of lengths, an unwrap need one particular length, byte offset, character or structure, at one place of the input and in one report.",
  ["src/parsers", "src/formatters", "src/main.rs", "src/trace.rs"],
  [("parsers read lines with lossy or checked UTF-8 and report errors as values", "src/parsers/mod.rs"), ("main maps errors to exit codes", "src/main.rs")],
  ["exit code, standard error and all reports of the run"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
