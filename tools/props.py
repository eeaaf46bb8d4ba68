"""Single source of properties.jsonl (and of the MANIFEST.json check list).

Run `python tools/gen.py` after editing."""

B = "sbclassifier/classifiers/basic.py"
S = "sbclassifier/classifiers/storage.py"
P = "sbclassifier/safepickle.py"
D = "sbclassifier/cdb.py"
CB = "sbclassifier/corpora/base.py"
CC = "sbclassifier/corpora/caches.py"
CF = "sbclassifier/corpora/filesystem.py"
TR = "sbclassifier/trainers.py"
M = "sbclassifier/message.py"
T = "sbclassifier/tokenizer.py"
ST = "sbclassifier/strippers.py"
IP = "sbclassifier/iputils.py"
DN = "sbclassifier/dnsutils.py"
SL = "sbclassifier/classifiers/slurping.py"

PROPS = []


def prop(id, title, statement, over, text, why, files, mech, state=(),
         observe=(), hook=None):
    PROPS.append(dict(
        id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=list(over), text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(
            files=list(files),
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=hook)))


# ---------------------------------------------------------------- classifier
prop("C01", "Training counts are exact for every train/untrain history",
     """After any sequence of training and untraining messages as spam or ham, the two message totals equal messages
     trained minus untrained, and every word's spam and ham counts equal the net number of messages of that class that
     contained it (repeats inside one message count once, an untrain never takes a count below zero, and a word whose
     two counts are both zero is no longer known). An untrain that would make a message total negative is refused with
     an error, and neither a refused operation nor one whose word source fails partway changes anything. Separate
     classifiers never influence each other.""",
     ["histories", "inputs"],
     """All histories of learn/unlearn (spam or ham, valid, refused and failing) over small vocabularies and all word
     streams up to a length, on one or two live classifiers.""",
     """The tests train one fixed pair of messages and a linear count-up/count-down; order, floors, repeats, refusals
     and partial failures are exponential in the history.""",
     [B],
     [("_add_msg / _remove_msg", B), ("learn / unlearn entry points", B)],
     [("nspam, nham", "messages trained per class", B),
      ("wordinfo", "per-word spam and ham counts", B)],
     ["_wordinfoget(word)", "nspam", "nham"])

prop("C02", "A score depends only on the net training, not on how it got there",
     """Whatever order messages were trained in, whatever was trained and later untrained, whatever was scored in
     between, a message's score and evidence equal those of a fresh classifier given just the net training. Word order
     and repetition in the scored message never change the score of the plain (single-word) mode, and scoring twice
     gives the same answer.""",
     ["histories", "inputs"],
     """All interleavings of train, untrain and score operations up to a depth, compared after each step with a freshly
     built classifier; all permutations and duplications of the scored words.""",
     """Stale memoised probabilities only show up for particular interleavings of scoring and training; the tests
     score once after training.""",
     [B, S],
     [("probability cache invalidated by every training step", B),
      ("set() of words when scoring", B)],
     [("_probcache", "memoised (spamcount, hamcount) -> probability", B)],
     ["spamprob(words, evidence=True)"])

prop("C03", "The score is the documented combination of word probabilities",
     """For any training state and any message, each word's probability is Robinson's adjusted ratio
     (strength 0.45 towards 0.5) of its share of spam to its share of ham, and the score is
     (S - H + 1) / 2 for the two chi-squared tail probabilities over the clues used, accurate to rounding even for
     very many very strong clues. The score always lies in [0, 1], every word probability lies strictly between 0 and
     1, and a message without clues scores exactly 0.5.""",
     ["inputs", "histories"],
     """Every (spam count, ham count, message totals) grid point and every multiset of such words up to a size,
     including 1..150 clues of one or two strengths that underflow naive products.""",
     """Numerical combination must hold for all counts and clue numbers; the tests check one training set.""",
     [B],
     [("probability", B), ("spamprob with frexp scaling", B), ("chi2Q", B)],
     (), ["spamprob(words, evidence=True)", "chi2Q(x2, v)"])

prop("C04", "Scoring uses exactly the strongest distinct clues and reports them",
     """A message's score uses only distinct words of the message whose probability is at least 0.1 away from 0.5, at
     most 150 of them, and never leaves out a word stronger than one it uses; when there are no more than 150 such
     words it uses all of them. The evidence returned with a score lists exactly the words used with their
     probabilities in increasing order, after the two overall ham and spam indications, and the score recomputed from
     that list is the score returned.""",
     ["inputs", "histories"],
     """All splits of a message into strong, weak, borderline, unknown and repeated words around the strength
     threshold and around the 150-clue limit, in all small word orders.""",
     """The limit of 150 and the strength threshold are never approached by the tests.""",
     [B],
     [("_getclues", B), ("MAX_DISCRIMINATORS, MINIMUM_PROB_STRENGTH", B)],
     (), ["spamprob(words, evidence=True)"])

prop("C05", "Pair mode trains every word and adjacent pair, and scores without overlap",
     """With word pairs enabled, training a message counts each of its words and each pair of adjacent words once, and
     untraining the same message removes exactly that, for any word source including one that can be read only once.
     Scoring uses clues that are words or adjacent pairs of the message, no two of which share a word position of the
     clue's first appearance, each at least 0.1 from 0.5, such that no unused clue is stronger than everything it
     overlaps with.""",
     ["inputs", "histories"],
     """All word streams up to a length over small text and byte vocabularies, given as lists, iterators and
     generators, with all trained/untrained splits of words and pairs.""",
     """One test trains one four-word message; last words, single words, one-shot iterators, byte tokens, ties and
     overlap need all short streams.""",
     [B],
     [("_enhance_wordstream", B), ("_getclues tiling", B)],
     (), ["_wordinfoget(word)", "spamprob(words, evidence=True)"])

prop("C06", "Swapping spam and ham mirrors every score",
     """Training the same history with the two labels exchanged turns every word probability p into 1 - p and every
     message score s into 1 - s, and exchanges the overall ham and spam indications, to within rounding (in
     single-word mode, for messages with at most 150 clues, where no choice between equally strong clues is made).""",
     ["histories", "inputs"],
     """All training histories up to a depth over a small vocabulary and all query messages, each run beside its
     mirrored twin.""",
     """A relation between two histories; no test compares mirrored classifiers.""",
     [B],
     [("probability", B), ("spamprob", B)], (), ["spamprob(words, evidence=True)"])

prop("C07", "Scoring changes nothing and parallel scorers do not disturb each other",
     """Scoring any message leaves all training counts, message totals and the score of every other message unchanged.
     Any number of threads scoring messages on one trained classifier at the same time each get exactly the score and
     evidence they would get alone, under every thread schedule.""",
     ["schedules", "inputs"],
     """All thread interleavings (line-level switch points in the package's code, up to a preemption bound) of two and
     three concurrent scorers, over several training states and backends.""",
     """Tests are single-threaded; interference through the shared memo table needs particular preemptions.""",
     [B, S],
     [("probability memo table only holds pure values", B),
      ("_worddistanceget reads only", B)],
     [("_probcache", "shared memo table", B)],
     ["spamprob from several threads"])

# --------------------------------------------------------------- persistence
prop("C08", "The settings of the scoring formula take effect, and only as documented",
     """For any settings of the prior probability of unknown words, its weight, the least strength and the greatest
     number of clues, made before the classifier, with and without pairs: a known word's probability is the mean of
     the counted one and the prior with these weights, an unknown word's is the prior; the clues used are words (or,
     with pairs, words and pairs of adjacent words) of the message at least as strong as the least strength, no more
     than the greatest number, the strongest first; and the score combines exactly these. Nothing that is not a word
     or pair of the message is ever a clue.""",
     ["configurations", "inputs"],
     """A grid of combinations of the four settings x all small messages over ten categories of words, and numbers
     of words around the greatest number.""",
     """No test changes a setting; with other settings different words are clues, unknown ones included.""",
     [B],
     [("probability", B), ("_getclues", B), ("UNKNOWN_WORD_PROB, UNKNOWN_WORD_STRENGTH, MINIMUM_PROB_STRENGTH, MAX_DISCRIMINATORS", B)],
     (), ["spamprob(words, evidence=True)"])

prop("P01", "Every persistent classifier behaves exactly like the in-memory one",
     """For any interleaving of training, untraining, scoring, saving, reloading after a save and reopening, the
     pickle, database-file and constant-database classifiers show the same word counts, message totals and scores as
     an in-memory classifier given the same training. This covers words that become rare again, disappear and come
     back before or after a save.""",
     ["histories"],
     """All operation sequences up to a depth over {train, untrain} x {spam, ham} x small messages, score, store,
     store+load, store+close+reopen, for each backend, compared step by step with a plain reference.""",
     """The database backend has a write-back cache with singleton, changed and deleted sets; tests follow three
     scripted paths through it.""",
     [S, B],
     [("ShelveClassifier write-back cache", S), ("store / load", S)],
     [("changed_words, deleted_words", "pending write-back", S)],
     ["_wordinfoget(word)", "nspam/nham", "spamprob"])

prop("P02", "Saved training reopens exactly, whatever the words contain",
     """Saving a classifier and opening the same file in a fresh process yields the same message totals, the same set
     of known words and the same counts for each, for word tokens of any bytes or (valid Unicode) text content: empty,
     spaces, commas, NUL, newlines, non-ASCII, very long, and words equal to names the storage uses internally. A text
     word and a byte word are never confused with different words, saving twice changes nothing, and it does not
     matter what the file is called or in which directory it is; no other file is left. A shelf opened with the flag
     'r' or 'w' shows what is there and refuses a missing file, one opened with 'n' starts empty; a classifier
     object sent through the pickle store also keeps its pair mode.""",
     ["inputs", "histories"],
     """All sets of up to three words from an alphabet of adversarial tokens with all small counts, on every
     persistent backend, read back by a separate process that opens the file.""",
     """Tests save a handful of ASCII words and read them in the same process, before the writer closes.""",
     [S, P, D],
     [("pickle_write / pickle_read", P), ("shelve key encoding", S), ("cdb_make / Cdb", D)],
     (), ["reopened classifier in another process"])

prop("P03", "A crash during saving never loses the last completed save",
     """If the process dies at any point during a save, reopening gives either the complete previous save or the
     complete new one for the pickle and constant-database classifiers, even if unflushed writes are lost or torn
     (a lock file left by the dead process must be cleared first). A save that has returned survives the death of the
     process for every backend. A save that fails with an error leaves the previous save in place and no temporary
     file, and does not prevent the next save.""",
     ["crash_points", "histories", "fault_sequences"],
     """Every file-system operation of a save is a crash point, with every prefix of each write and every loss of
     unsynced data at that point, over several old/new state pairs; plus every injected I/O error on those calls.""",
     """No test kills or fails a save.""",
     [P, S, D],
     [("temp file then rename", P), ("store", S)],
     (), ["directory contents after the crash", "reopened classifier"])

prop("P04", "An unreadable database is never mistaken for an empty one",
     """Opening a pickle or constant-database classifier whose file is truncated or empty, or any file-backed classifier
     whose file has another format version or foreign content or is unreadable or locked, raises an error or shows
     exactly the saved training, and never silently starts an empty (or different) classifier; only a missing file
     starts a new empty one. A failed open leaves the file untouched.""",
     ["fault_sequences", "inputs"],
     """Every truncation length, foreign contents, version changes, unreadable files, I/O errors injected at each
     call of the open, and a held lock, for each file-backed classifier.""",
     """No test opens a damaged file.""",
     [S, P, D],
     [("load", S), ("pickle_read", P), ("__setstate__ version check", B)],
     (), ["construction of the classifier on the damaged file"])

prop("P05", "Concurrent saves and loads through the pickle store stay whole",
     """Under every interleaving of several threads saving and loading the same file, each load returns one of the
     complete values saved (or the initial one), no reader fails because of a concurrent writer, and the last save in
     lock order is what remains; while anyone holds the file's lock, the file does not change. When all are done the lock is free and no temporary files are left, including after a
     save whose value cannot be pickled.""",
     ["schedules", "fault_sequences"],
     """All interleavings at file-system-operation granularity, up to a preemption bound, of two or three workers each
     doing saves and loads, plus failing saves.""",
     """Tests save from one thread only.""",
     [P],
     [("FileLock around read and write", P), ("atomic replace", P)],
     (), ["pickle_read / pickle_write", "directory listing"])

prop("P06", "Constant-database files hold exactly the given pairs",
     """Building a constant database from any list of key/value pairs and reading it back gives, for every key, the
     value stored for its first occurrence, reports every other key as absent, gives all values of a key in order when
     asked for them one after the other (findstart, then findnext until KeyError), and iterates over exactly the pairs
     in order. The file follows the published cdb format, so that an independent reader finds the same pairs,
     and files that an independent writer made (also with full hash tables) are read likewise.""",
     ["inputs"],
     """All lists of up to four pairs over adversarial keys and values (empty, NUL, non-ASCII, colliding hashes, same
     bucket, same slot, duplicates), and bucket-filling families; judged by an independent reader.""",
     """The module has no executed tests.""",
     [D],
     [("cdb_make", D), ("Cdb.findnext", D), ("cdb_hash", D)],
     (), ["Cdb(fp)[key]", "file bytes"])

prop("P07", "Loading again reads what the file holds now",
     """Calling load() on an open file-backed classifier (pickle, shelf or constant database) replaces its totals,
     words and scores by those last saved in its file, also when another classifier saved them, and forgets its own
     unsaved training (of a shelf, that part that is not in the file); afterwards it scores, trains and saves exactly like a classifier freshly opened on that file.
     (With a shelf, whose unsaved training is partly in the file, the two must take turns: train and save only after
     loading what the other has saved.)""",
     ["histories"],
     """All operation sequences up to a depth of train, untrain, score, store and load by two classifiers sharing one
     file, after several beginnings, for each backend.""",
     """No test loads a classifier twice or opens a file twice; stale caches show only after another one's save.""",
     [S, B],
     [("PickleClassifier.load", S), ("ShelveClassifier.load", S), ("CDBClassifier.load", S)],
     (), ["nham / nspam", "counts per word", "scores"])

# ------------------------------------------------------------------- corpora
prop("K01", "The in-memory message cache is an exact bounded first-in-first-out map",
     """For any sequence of put, replace, get, remove and listing operations, the memory cache holds exactly the most
     recently first-added entries up to its size limit, evicting the oldest first; replacing an entry's value neither
     evicts anything nor changes its age, and removing an entry makes room. Length, membership, keys, values and
     lookups always agree.""",
     ["histories", "configurations"],
     """All operation sequences up to a depth over four keys and limits 1..3 and unlimited, compared with a reference
     list.""",
     """Eviction order depends on the whole history; tests never exceed the limit.""",
     [CC, CB],
     [("put / pop", CC)], [("_keys, data", "insertion order and values", CC)],
     ["Corpus/NaiveCache public mapping API"])

prop("K02", "A directory corpus keeps every message until it is removed",
     """A message added to a directory corpus can be read back with identical content and id, from the same corpus and
     from a new one on the same directory, until it is removed, however many messages are added and however small the
     memory cache is; after removal it is gone everywhere. Length, membership, keys, values, items and lookups always
     agree with the matching files in the directory (also when another program adds one), and a corpus built on an empty
     directory is still a directory corpus.""",
     ["histories", "configurations"],
     """All sequences of add, replace, remove, get, reopen and external file creation up to a depth, with
     cache limits 1..3, several filters, and messages with awkward bodies.""",
     """Eviction, reopening and external changes combine; tests do one add and one remove with a cache of 100.""",
     [CC, CF, CB],
     [("FileCache two-level cache", CC), ("FileCorpus", CF)],
     [("data, num_files", "memory level and counter", CC)],
     ["FileCorpus mapping API", "directory listing"])

prop("K03", "Each corpus change is announced exactly once, and nothing else is",
     """Adding a message to a corpus sends exactly one added notification, and removing one sends exactly one removed
     notification, carrying that corpus and that message, after the corpus has changed; nothing is sent when
     notification is switched off, when the operation is refused, or by reading, listing or cache eviction. Observers
     of one corpus never hear about another.""",
     ["histories"],
     """All sequences of add/remove (announced or silent, refused, absent)/read operations up to a depth over two
     corpora with different caches, with per-corpus and global observers.""",
     """Tests only check that a raising observer propagates.""",
     [CB, CC],
     [("add_message / remove_message", CB), ("message_added / message_removed signals", CB)],
     (), ["blinker signal receivers"])

prop("K04", "Trainers keep the classifier equal to the contents of their corpora",
     """With spam and ham trainers attached to corpora, after any sequence of announced adds of messages not already
     there, removals of messages present, and moves between corpora, the classifier is exactly in the state of having
     been trained on the messages currently in those corpora and nothing else. Each message remembers how it is currently trained: as spam, as ham, or not at all.""",
     ["histories"],
     """All sequences of add, remove and move up to a depth over several messages and two or three corpora with one
     or more trainers, against a classifier trained from scratch on the current contents.""",
     """The trainer module has no effective tests.""",
     [TR, CB],
     [("Trainer.train / untrain connected to signals", TR)],
     (), ["classifier word counts", "message.is_trained()"])

prop("K05", "Expiry removes exactly the messages past their age",
     """When expiry of a directory corpus runs, every message whose file was last written longer ago than the age
     limit is removed and no younger message is, whatever the pattern of ages, clock advances, additions and earlier expiry runs; at most the
     documented early return delays a removal until the next due time. Expiry announces no training change, never
     fails, and leaves files not matching the filter alone.""",
     ["histories", "schedules"],
     """All sequences of add (with file age), clock advance and expiry runs up to a depth under a controlled clock.""",
     """The only expiry test is skipped for timing reasons.""",
     [CF, CC],
     [("remove_expired_messages", CF)], [("expiry_due", "earliest next expiry", CF)],
     ["directory contents", "keys()"])

prop("K06", "A directory corpus never touches files outside its directory",
     """No message id, filter or operation makes a directory corpus create, change, read or delete a file outside its
     own directory; ids that would name one are refused with an error and change nothing. Files in the directory that
     do not match the filter are never read, changed or deleted.""",
     ["inputs", "histories"],
     """All short ids over path-significant characters x {add, get, contains, remove} x filters, inside a scratch tree
     with sentinel files, comparing the whole tree before and after.""",
     """Tests use single-digit ids.""",
     [CC, CF],
     [("id/filter validation in put/pop/get", CC)], (), ["scratch directory tree"])

# ------------------------------------------------------------------ messages
prop("M01", "A message's id can be set once and never changes",
     """Once a message has an id, every attempt to give it a different one fails with an error and leaves the id as it
     was, while setting the same id again is accepted; absent, non-text and reserved ids are always refused. Reading
     the id from the message's own headers (the first such one) follows the same rules.""",
     ["histories", "inputs"],
     """All sequences up to a depth of set-id and id-from-headers calls over valid, equal, different, empty, reserved
     and wrong-typed values, on messages built in every supported way.""",
     """Tests try single calls, not sequences.""",
     [M], [("set_id", M), ("set_id_from_payload", M)], [("messageid", "write-once id", M)],
     ["id()"])

prop("M02", "Adding and then removing our headers restores the message",
     """Adding classification headers and recipient/subject notations to a message and then removing them, with both
     notation kinds selected, gives back all its original headers (values and order) and body, for every combination
     of header and notation options, for any message with recipient and subject headers whose existing text does not
     itself start with such a notation. (A message lacking the header to annotate gets one holding the notation alone.) Removing only one kind of notation leaves the other (removing our headers removes both unless
     told otherwise, removing notations only what is asked for), at most one notation is removed per header, our
     headers can be saved, removed and put back with the same values, and no header that is not ours is ever dropped or changed.""",
     ["configurations", "histories", "inputs"],
     """All combinations of header options x notations x existing To/Subject forms x probabilities, with all
     add/remove sequences up to a depth.""",
     """Tests check single options on one message; the two notation kinds are interchangeable mistakes.""",
     [M], [("add_sb_headers / add_notations", M), ("remove_sb_headers / remove_notations", M)],
     (), ["items()", "as_string()"])

prop("M03", "Classification, score and level headers agree with the probability",
     """For every probability in [0, 1], a message below 0.20 is classified ham, above 0.90 spam and otherwise unsure,
     with the classification header, the recorded classification and any notations all saying the same. The score
     header shows the probability with the requested digits, two by default (plus the logarithmic hint only within 0.005 of 0 or 1),
     and the level header shows one star per full tenth; headers not asked for are absent.""",
     ["inputs", "configurations"],
     """All probabilities on a fine grid plus the floating-point neighbours of every threshold, x all option
     combinations.""",
     """Tests use three probabilities; thresholds and their neighbours are not sampled.""",
     [M, "sbclassifier/classifiers/constants.py"],
     [("set_classification", M), ("add_sb_headers", M)], (), ["message headers"])

prop("M04", "The evidence header lists exactly the selected clues, on valid lines",
     """The evidence header lists, in the given order, exactly the two overall indications and every clue whose
     probability is at most the cutoff (by default 0.5) or at least one minus the cutoff, each with its probability to two places, and
     no other clue. For any clue text (control characters, line breaks, quotes, non-ASCII, any length) it stays a
     single header: serialising and re-parsing the message finds the same other headers and body.""",
     ["inputs", "configurations"],
     """All clue lists up to three entries from adversarial words x probabilities around the cutoffs x cutoffs, and
     list lengths/word lengths sweeping the line-wrap boundary.""",
     """Tests use one message's clues; wrapping and hostile clue text are not covered.""",
     [M], [("add_sb_headers evidence wrapping", M)], (), ["evidence header after re-parsing"])

prop("M05", "Message text always uses CRLF line ends and re-parses to the same message",
     """Converting any message to text produces only CRLF line ends (no bare CR or LF), doing it again on the result of
     re-parsing gives the same text, and re-parsing finds the same headers and decoded body up to line ends (and the
     customary quoting of body lines starting with "From "), for every message that Python's email package itself can
     write and read back, including multipart, empty and 8-bit ones. Asked for, the
     envelope line comes first. The call never alters the message.""",
     ["inputs"],
     """All texts up to a length over {CR, LF, text, separator} plus all small MIME trees x encodings.""",
     """Line-end handling must hold for every mixture of CR and LF; tests use LF only.""",
     [M], [("as_string", M), ("force_crlf", M)], (), ["as_string()", "force_crlf()"])

prop("M06", "Recording an exception in a message never damages it",
     """Inserting an exception report into any message text whose header section is well formed (with or without
     body, with any separator and line-end style) yields a message whose original headers and body are unchanged, plus exactly one exception header holding
     the report and, if requested, one id header. Nothing in the exception text can end the header section or
     introduce another header; every line of the added headers, and the empty line that follows them, ends in CRLF.""",
     ["inputs"],
     """All small header/body/separator forms x exception texts with every line-break character and odd content x id
     given or not.""",
     """Tests use one LF message and a constant exception.""",
     [M], [("insert_exception_header", M)], (), ["re-parsed message"])

# ----------------------------------------------------------------- tokenizer
prop("T01", "Tokenizing never fails, whatever the message",
     """Tokenizing any message, however malformed (broken MIME structure, undecodable transfer encodings, unknown
     charsets, 8-bit or badly encoded headers, stray markup), finishes without an error and yields only byte strings.
     This holds with every optional analysis of text switched on or off (image text recognition, which needs an
     absent package, aside).""",
     ["inputs", "configurations"],
     """All short bodies over markup-significant bytes, all header values up to a length over header-significant
     fragments for each analysed header, all small MIME trees with damaged encodings, x option toggles.""",
     """Tests tokenize two well-formed ASCII messages.""",
     [T, ST, IP], [("Tokenizer.__call__", T), ("convert_to_bytes", T), ("crackers", ST)],
     (), ["list(tokenize(message))"])

prop("T02", "Tokenizing is repeatable and independent of everything else",
     """Tokenizing the same message always yields the same tokens in the same order: again, after tokenizing any other
     messages, in another process with another hash seed, or while other threads tokenize other messages under any
     schedule. It never changes the message.""",
     ["schedules", "histories", "inputs"],
     """All pairs and triples of a message set in sequence and interleaved token by token, all thread interleavings up
     to a preemption bound of two tokenizations, and several hash seeds in subprocesses.""",
     """Order dependence on object addresses or shared parser state needs other histories, seeds or schedules.""",
     [T, ST], [("module-level shared strippers and tokenizer", T), ("part collection order", T)],
     (), ["list(tokenize(message))"])

prop("T03", "Body words become tokens by the documented length rules",
     """Text bodies are split at white space and case-folded; words of 3 to 12 bytes become tokens unchanged, and
     shorter ones are dropped. A longer word that is an e-mail address shorter than 40 bytes becomes its name and
     address parts; any other long word becomes one token with its first character and its length rounded down to a
     multiple of ten, plus the percentage of 8-bit bytes when it has any, and nothing else is emitted for it.""",
     ["inputs"],
     """All words with lengths 1..45 x first character x 8-bit count x @/dot placement, and all sequences of up to
     four words and separators, against an independent specification.""",
     """Boundary lengths and 8-bit words are not tested.""",
     [T], [("tokenize_text", T), ("tokenize_word", T)], (), ["list(tokenize(message))"])

prop("T04", "Markup, entities, comments and case cannot hide or change words",
     """A body word split by tags or comments, written with decimal character references (like &#97;), or in other
     letter case gives the same word tokens as the plain lower-case word; plain <br> and <p> tags and non-breaking spaces
     separate words. Comments, style and noframes sections contribute no words, while the opening of one without its
     end hides no more than a tag would.""",
     ["inputs"],
     """All sequences up to a length over word fragments, tags, comments (open/closed), break tags, entities and
     sections, compared with an independent specification built from the fragments.""",
     """The test messages contain no markup.""",
     [T, ST], [("numeric_entity_replacer", T), ("html_re / breaking_entity_re", T), ("Stripper.analyze", ST)],
     (), ["list(tokenize(message))"])

prop("T05", "Transfer encoding and MIME layout do not change the words found",
     """The same text sent as 7bit, 8bit, quoted-printable or base64, as the whole message or as a part at any place in
     a multipart tree, gives the same body tokens; the tokens of several text parts are those of each part in order,
     and non-text parts contribute no words.""",
     ["inputs"],
     """All MIME trees up to a size x encodings x charsets x texts.""",
     """The test messages are single-part 7bit.""",
     [T], [("textparts", T), ("tokenize_body decoding", T), ("try_to_repair_damaged_base64", T)],
     (), ["list(tokenize(message))"])

prop("T06", "Each URL yields its protocol and path clues and no stray words",
     """Every http, https or ftp URL in a body yields its protocol and each piece of its address split at slashes and
     URL separators, without sentence punctuation that merely follows it, and the URL text contributes nothing else;
     text around it is tokenized as if the URL were absent. Several URLs are treated alike and independently.""",
     ["inputs"],
     """All URLs up to a length over URL-significant characters x protocols x following punctuation x surrounding
     text, and all pairs, against an independent specification.""",
     """One URL occurs in the tests and no token is checked.""",
     [ST, T], [("URLStripper.tokenize", ST), ("url_re", ST)], (), ["list(tokenize(message))"])

prop("T07", "Header clues follow the message's headers exactly",
     """Subject words keep their case and are tagged as subject words with punctuation runs tagged too; each address
     header yields its names, address parts, or a missing-value clue, and recipient counts by power of two; content
     types, charsets, attachment file names, mailer and message-id host (from the first @ to
     the closing bracket) are reported; and the count of each known
     header is reported with its spelling. Encoded (RFC 2047) text is decoded first and charsets reported.""",
     ["inputs"],
     """All header sets up to a size from per-header value alphabets (absent, plain, several addresses, encoded,
     malformed), against an independent specification.""",
     """No test checks header tokens.""",
     [T, ST], [("tokenize_headers", T), ("crack_content_xyz", ST)], (), ["list(tokenize(message))"])

prop("T08", "Section removal keeps exactly the text outside matched sections",
     """For comments, style, noframes and uuencoded sections, and URLs, stripping returns exactly the text outside the sections that have
     both a start and an end, in order, and an unterminated start leaves the rest of the text in place. Stripping text
     without sections returns it unchanged. Each uuencoded start is reported by its mode and file name (with the
     components and pieces of the name).""",
     ["inputs"],
     """All byte strings made of up to a number of start markers, end markers, near-misses and text for each stripper,
     against an independent scanner.""",
     """Strippers have no direct tests.""",
     [ST], [("Stripper.analyze", ST), ("start/end patterns", ST)], (), ["analyze(text)"])

prop("T09", "Optional header analyses report exactly what the headers say",
     """When enabled, mining of Received headers reports every prefix-of-domain and dotted-quad prefix of the sending
     host and every parenthesized remark of several words, counting headers and recording absent ones reports exactly the present/absent known headers, basic header
     tokenization reports each header's words under its name except skipped ones, and common address prefix/suffix
     summaries grow with the shared length and number of recipients. The lists of counted, address and
     skipped headers may be changed and are then followed. When disabled these analyses contribute
     nothing.""",
     ["inputs", "configurations"],
     """All option settings x header value alphabets, against an independent specification.""",
     """All these options are off in the tests.""",
     [T], [("tokenize_headers option branches", T)], (), ["list(tokenize(message))"])

prop("T10", "The other optional analyses report exactly what the message says",
     """Each of the other optional analyses adds exactly its clues, and nothing when it is off: the first five bytes
     of each octet-stream part; the total size of the images as a power of two; the longest run of short words before
     a longer one as a power of two; the name, domain and networks of each NNTP-Posting-Host; each Habeas header's
     validity (or one clue for all nine); question marks for 8-bit and control characters; and for URLs picked apart
     their escapes and the number of these, user names, unusual ports, raw addresses, the pieces of the unescaped
     address and, if asked to look it up, the networks of each address of the host. Script and frame tags, sources by content id and zero sizes always yield a virus clue each.""",
     ["inputs", "configurations"],
     """All messages of bounded grammars for each option, alone and with others, against independent oracles.""",
     """All these options are off in the tests.""",
     [T, ST], [("tokenize_body option branches, mine_nntp, Habeas headers, virus_re", T), ("URLStripper.tokenize", ST)],
     (), ["list(tokenize(message))"])

# -------------------------------------------------------------------- others
prop("N01", "Network prefixes of an address always contain it",
     """For every address and every list of prefix lengths, the networks generated are exactly the networks of those
     lengths that contain the address, in the given order, by default lengths 8, 16, 24 and 32; the clues are those
     networks with the given prefix.""",
     ["inputs"],
     """All boundary-byte IPv4 addresses x all prefix length lists up to a size, against integer arithmetic.""",
     """One address with default lengths is tested.""",
     [IP], [("subnets", IP), ("gen_dotted_quad_clues", IP)], (), ["subnets()", "gen_dotted_quad_clues()"])

prop("N02", "Name lookups never fail and leave the process-wide timeout as it was",
     """Forward and reverse lookups return the addresses or name found, or nothing when the lookup fails or times out,
     for every resolver outcome; the bounded timeout applies during the lookup. Whatever happens, when lookups do not
     overlap, the process's default socket timeout afterwards is what it was before. A memoized function gives what the
     function gives for the same arguments and calls it once for them, unless the call fails.""",
     ["fault_sequences", "histories"],
     """All sequences up to a depth of lookups x resolver outcomes (names, several addresses, not found, host error,
     timeout, interrupt) x previous timeout settings, with a stand-in resolver; all sequences of calls of a memoized
     function.""",
     """The lookup test needs the network and only checks success.""",
     [DN], [("timed", DN), ("reverse_dns_lookup / dns_lookup", DN)], (), ["socket.getdefaulttimeout()"])

prop("S01", "Following links never changes anything unless the first score is unsure",
     """The link-following classifier trains and scores exactly like the plain one when the message has no link to
     follow; with a link, scoring consults the page only if the plain score is unsure and clues are few, the page
     changes the result only if it makes the score sure, and training also counts the page's clues. Each address is
     retrieved at most once while its page is cached, which is for the set number
    of days (a different address never gets its page), failures are reported as clues
     and remembered, and no retrieval outcome, nor a damaged record of failures, makes scoring or training fail. If only base addresses
     are to be followed, just the last two labels of the host (three for a two-letter last one; all of an IP address) and
     the port are retrieved; a proxy, if set, is used.""",
     ["histories", "fault_sequences"],
     """All sequences up to a depth of train/score operations x link outcomes (page, non-HTML, error, unresolvable,
     timeout) with a stand-in network.""",
     """The slurping module has no tests.""",
     [SL], [("SlurpingClassifier", SL), ("slurp caches", SL)], (), ["spamprob", "requests made"])

prop("E01", "Training and then untraining a message leaves no trace",
     """For any message, training it as spam or ham and later untraining it the same way, with any other training,
     saving, scoring and reopening in between, leaves every count and every score as if it had never been trained, on
     every kind of classifier; this holds when the message is re-parsed from its stored bytes in between, and after
     our own headers (other than notations) were added, whether or not they were removed again.""",
     ["histories", "inputs"],
     """All interleavings of train/untrain of a set of real messages with save/reopen/re-parse/header round trips up
     to a depth, on every backend.""",
     """An end-to-end history property across tokenizer, message, classifier and storage.""",
     [B, S, T, M], [("learn/unlearn", B), ("tokenize", T)], (), ["word counts", "spamprob"])
