MC = "model_checking"
FE = "fault_enumeration"
TRUST = "Trusts the reference model, the report readers of the harness and the bounds of the families (DESIGN.md)."
WORLD = ("exhaustive enumeration of bounded worlds (artefacts, requirements, references, relations, settings) "
         "run through the real parser, tracer and formatters, each compared with a reference tracer")
WNOTE = ("Complete within the stated families (2-4 artefacts, 1-4 requirements, every reference pattern, relation set, "
         "near-miss ids; complete worlds with up to 2 deviations). " + TRUST)
DOC = ("exhaustive enumeration of bounded documents (all line sequences over a line alphabet, all strings over a character "
       "alphabet, all edits of a document up to a bound) run through the real parser, each compared with a reference ")
DNOTE = "Complete for all documents of the stated alphabets and lengths; nothing is said about characters outside the alphabets. " + TRUST
LEVELS = {i: (MC, WORLD, WNOTE) for i in ["C01", "C02", "C03", "C04", "C05", "C06", "C13", "C14", "C15"]}
LEVELS.update({
    "C07": (MC, DOC + "state machine of the Markdown grammar", DNOTE),
    "C08": (MC, DOC + "state machine of the Markdown grammar", DNOTE),
    "C09": (MC, DOC + "scanner", DNOTE),
    "C10": (MC, "exhaustive enumeration of bounded Rust sources (all nestings of items, all positions and argument forms of "
                "marks) run through the real parser, each compared with the generating structure", DNOTE),
    "C11": (MC, "exhaustive enumeration of bounded requirement sets and of export/import histories of the real exporter and "
                "importer, against a field-by-field reference", "Complete for the stated field values and history length. " + TRUST),
    "C12": (MC, "exhaustive enumeration of problem combinations, job settings and job sequences, run in process and as the "
                "real program, against a reference function for the result code", "Complete for all problem subsets and job sequences up to the stated length. " + TRUST),
    "C16": (FE, "every input operation (open, read, directory listing) of the real program is made to fail in every way, in "
                "pairs too, through an interposed C library", "Complete for single faults at every operation of the fixture projects, and for the stated pairs; failures of stat are not enumerated. " + TRUST),
    "C17": (FE, "every output operation (mkdir, create, write) of the real program is made to fail in every way, for every "
                "job and output, through an interposed C library", "Complete for single faults at every operation of every job of the fixture projects, and for the stated pairs; failures of close are not detectable by the program. " + TRUST),
    "C18": (MC, "exhaustive enumeration of configurations with up to two mistakes and of job lists, run as the real program, "
                "against a reference classifier", "Complete for the stated mistakes, alone and in pairs. " + TRUST),
    "C19": (MC, "exhaustive enumeration of job histories, interruption points (every system call of an earlier run), previous "
                "contents and permutations of the configuration; differential against a fresh run", "Complete for the stated history length, every interruption point, all permutations. " + TRUST),
    "C20": (MC, "exhaustive enumeration of all texts up to a bound over the characters that matter, and of all locations "
                "over a set of names and positions, against a reference parser; bounded round trips", DNOTE),
    "C22": (MC, "exhaustive enumeration of report paths, base directories, jobs, job pairs and repeated runs of the real "
                "program; the whole directory tree and standard output are compared with what the model predicts",
                "Complete for the stated paths, bases and job lists. " + TRUST),
    "C23": (MC, "stateless exploration of the interleavings of two runs of the real program under a controlled scheduler "
                "(interposed C library, one access to the file system at a time), preemption bounded; differential against "
                "the runs one after the other",
                "Complete for all schedules with up to 2 (thorough 3) preemptions at the stated accesses, for the stated places and jobs. " + TRUST),
    "C24": (MC, "exhaustive enumeration of the contents of input files (sequences of pieces, characters, lengths and words at every place, "
                "nestings) and of argument lists, running all reports of the real code on each and watching for crashes, hangs and "
                "incomplete reports",
                "Complete for the stated pieces, characters, lengths, words, nestings and arguments; nesting beyond 100 levels is known finding K2. " + TRUST),
    "C21": (MC, "exhaustive enumeration of path lists (up to 3 of 51 patterns) over a directory tree and of base directories, "
                "against a reference matcher", "Complete for the stated patterns, trees and bases. " + TRUST),
})
NOT_APPLICABLE = {}
NOTES = "No hooks in /repo are needed."
