"""Which properties have a check: id -> (technique, level, level_note), or the
reason why there is none."""
NOTES = """All checks execute the code of /repo (MC_REPO overrides) in
forked workers and enumerate bounded spaces completely; see DESIGN.md."""

HIST = """explicit-state model checking: every operation sequence up to a depth,
replayed on the implementation against a reference model"""
INPUT = """bounded exhaustive enumeration of structured inputs on the
implementation against an independent oracle"""

FAULTS = """exhaustive crash-point and fault enumeration on the
implementation: every file operation of each history is stopped, torn, failed
or lost"""

SCHED = """stateless model checking of thread schedules: every interleaving of
the real threads up to a preemption bound, under a controlled scheduler"""

MC, EX, FE = 'model_checking', 'exploration', 'fault_enumeration'

CLAIMS = {
    'C01': (HIST, MC, """Exhaustive within the bounds (sequences up to 4 to 9
        operations over alphabets of 4 to 20 operations, two classifiers);
        trusts the 40-line reference counter in mc/ref.py."""),
    'C02': (HIST, MC, """Exhaustive within the bounds (sequences up to 6
        training/scoring steps); scores compared with a fresh classifier and
        with 60-digit arithmetic."""),
    'C03': (INPUT, EX, """Exhaustive on the grid of counts and clue numbers up
        to 150; oracle in 60-digit decimal arithmetic."""),
    'C04': (INPUT, EX, """Exhaustive over small multisets of strength
        categories and counts around the limit; any choice between equally
        strong clues is accepted."""),
    'C05': (HIST, MC, """Exhaustive over streams up to 6 words and training
        sequences up to depth 4."""),
    'C06': (HIST, MC, """Exhaustive over mirrored histories up to depth 5."""),
    'C07': (SCHED, MC, """Every schedule of two or three scoring threads within
        the preemption bound (line and bytecode granularity), on every kind
        of classifier, cold and warm; every sequence of scorings and every
        nesting of two."""),
    'E01': (HIST, MC, """Every message x every way it is kept between training
        and untraining x kind of classifier, and every history up to a
        depth; compared with a classifier that only had the rest of the
        training."""),
    'C08': (INPUT, EX, """Exhaustive on a grid of 600 combinations of settings
        and messages of up to three words of ten categories; oracle in
        60-digit arithmetic with the same settings."""),
    'P01': (HIST, MC, """Every sequence of training, saving and reopening up to
        a depth, over databases with adversarial words, on the three
        persistent classes; a second process with another hash seed reads
        the files."""),
    'P02': (INPUT, EX, """Every set of up to two (thorough: three) words from
        an alphabet of 47 adversarial tokens, on the three persistent
        classes, read by a second process with another hash seed."""),
    'P03': (FAULTS, FE, """Every operation boundary and torn write of a save,
        every failing system call, and every subset of unsynchronised writes
        lost, over several histories; system calls are intercepted in the
        process, the disk model is the usual one (data is durable only after
        fsync)."""),
    'P04': (FAULTS, FE, """Every truncation of several databases, 45 kinds of
        foreign content, and every operation of an open failing once or for
        good; faults of Berkeley DB's own reads and closes are excluded."""),
    'P05': (SCHED, MC, """Every schedule of two or three threads at line
        granularity within 1 to 3 preemptions; waiting for the lock uses
        virtual time."""),
    'P06': (INPUT, EX, """Every list of up to 4 (thorough 5) pairs over
        colliding keys, sizes up to 1200 records; independent reader of the
        published format."""),
    'P07': (HIST, MC, """Every allowed sequence of up to 4 (shelf 5; thorough
        one more) operations by two classifiers on one file from three
        beginnings, each compared with the model, after loading with the
        file's model, and with a classifier opened freshly; the two take
        turns (no concurrent saves, which P05 covers)."""),
    'K01': (HIST, MC, """Every operation sequence up to depth 7 (thorough:
        deeper) over four keys, sizes 1..3 and unlimited, against a
        reference list."""),
    'K02': (HIST, MC, """Every sequence up to a depth of add, replace, remove,
        read, reopen and external creation, over cache sizes and filters,
        against a reference dictionary; the directory is a scratch one."""),
    'K03': (HIST, MC, """Every sequence up to a depth of announced, silent,
        refused and failing operations on two corpora of every kind."""),
    'K04': (HIST, MC, """Every sequence up to a depth of adds, removals and
        moves between corpora with trainers, compared after each step with a
        classifier trained on the current contents."""),
    'K05': (HIST, MC, """Every sequence up to a depth of additions, clock
        advances and expiry runs under a virtual clock."""),
    'K06': (INPUT, EX, """Every id of up to three (thorough: five) pieces of
        path syntax x operations x filters; the surrounding tree and every
        file opened (audit events) are checked."""),
    'M01': (HIST, MC, """Every sequence up to a depth of setting one of 18 ids,
        reading the id from the headers, changing headers and unrelated
        operations, on messages built in every way, against a write-once
        reference."""),
    'M02': (HIST, MC, """Every combination of header options and every sequence
        up to a depth of adding, removing, serialising and re-parsing,
        against a reference of the header list; lines that the email package
        itself would fold are excluded from re-parsing."""),
    'M03': (INPUT, EX, """Every probability on a grid of 1/2000 (thorough:
        1/20000) and the floating-point neighbours of every threshold x
        every combination of options."""),
    'M04': (INPUT, EX, """Every list of up to two (thorough: three) clues from
        an adversarial alphabet, every word length at the wrap boundary;
        the header is read back by an independent reader."""),
    'M05': (INPUT, EX, """Every string up to a length over line ends, colon,
        space and letters, and every MIME tree up to a size; fidelity is
        required where the standard library's email package itself
        round-trips."""),
    'M06': (INPUT, EX, """Every message of up to two (thorough: three) header
        lines x line end x body form x exception text; re-parsed by an
        independent reader."""),
    'T01': (INPUT, EX, """Every body and header value of up to three
        (thorough: four) adversarial fragments, every damaged encoding,
        every byte pair; options off, all on, and one at a time."""),
    'T03': (INPUT, EX, """Every word up to a length over a small alphabet,
        every length up to beyond the limits, against an independent
        oracle."""),
    'T04': (INPUT, EX, """Every position of every obfuscation in several
        words, and every sequence of up to three (thorough: four) fragments,
        against an independent scanner."""),
    'T05': (INPUT, EX, """Every text x transfer encoding x content type x line
        end, and every tree of up to three (thorough: four) leaves in up to
        19 shapes."""),
    'T06': (INPUT, EX, """Every address of up to four (thorough: five) pieces of
        URL syntax, every following punctuation and text, every pair of
        URLs, against an independent splitter; texts where a numeric
        character reference could arise are excluded."""),
    'T02': (SCHED, MC, """Every schedule of two threads that tokenize messages at
        the same time, within the preemption bound, and every ordered pair
        of messages tokenized one after the other; compared with a fresh
        process's tokens."""),
    'T07': (INPUT, EX, """Every combination of header pieces up to a bound per
        kind of header, against an independent reader."""),
    'T08': (INPUT, EX, """Every body of up to three (thorough: four) fragments
        of HTML, uuencode and text, against an independent scanner."""),
    'T09': (INPUT, EX, """Every setting of each option on every message of a
        set, against an independent statement of what it adds or removes."""),
    'T10': (INPUT, EX, """Every message of a bounded grammar per option, alone
        and with others, against independent oracles; lookups are answered
        by a stand-in."""),
    'N01': (INPUT, EX, """Every string of up to a length over adversarial
        address syntax, and every address on a grid, against an
        independent parser."""),
    'N02': (HIST, MC, """Every history of lookups, failures and clock advances up
        to a depth with a stand-in resolver, nested or not, every initial
        timeout, and memoised functions called in every order."""),
    'S01': (HIST, MC, """Every sequence of messages with links up to a depth, over
        options, with a stand-in for the web; reference model of the cache
        and of the score tokens."""),
}
CLAIMS = {k: (' '.join(a.split()), b, c) for k, (a, b, c) in CLAIMS.items()}
