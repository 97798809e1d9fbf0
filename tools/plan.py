"""What each check runs: (number of runs, time limit in seconds) per tier, and the words for evidence and manifest."""

RULE = ('One run = one seed: the seed decides the documents or jobs, how each source splits and fails its reads and writes, and the order of '
        'everything the simulated world does. A run is non-trivial when at least one fault or schedule event actually fired in it (a short or failed '
        'read or write, a task switch, a damaged or cut document, a failed allocation, a changed locale, another operation before it) and it ended '
        'in a judged result.')
SIMULATED_TIME = 'the library has no clock or timer; length is counted in simulated events (calls that crossed a seam)'
ASSUMPTIONS = [
    'the oracles are independent models written from the formats: a document is generated together with what it means, so a shared misunderstanding between model and library is not found',
    'sampled, not exhaustive: a quiet run is evidence, not proof',
    'GCC 13, libstdc++, glibc and Boost of this sandbox, x86-64 Linux',
]
REAL = ['all of /repo/src compiled from the working tree with AddressSanitizer and UndefinedBehaviorSanitizer', 'libstdc++, Boost and ICU as installed', 'glibc stdio buffering above the simulated read, write and close']
STUB = ['read, write, writev, open, fopen, close and the stream buffers handed to readers: real descriptors in a scratch directory, with length and outcome of every call decided by the seed']
ALLOC = ['malloc and operator new: counted, and failed where the seed says']


def p(n, rule, quick, thorough, technique, note, flavour='A', real=REAL, stub=STUB, **k):
    d = {'rule': rule, 'quick': quick, 'thorough': thorough, 'technique': technique, 'note': note, 'flavour': flavour, 'real': real, 'stub': stub}
    d.update(k)
    return n, d


DST = 'deterministic simulation with fault injection: '
PROPERTIES = dict([
    p('C01', 'SubRip documents built from a model of cues, read while other readers are interleaved with them.', (11000, 75), (600000, 3000),
      DST + 'seeded delivery schedules and interleaved readers, refinement against a model of SubRip',
      'Seeded search over documents, byte-delivery patterns, buffer sizes and interleavings with other readers; every fragment and collected line compared with the model the document was built from.'),
    p('C02', 'WebVTT documents built from a model of cues, read while other readers are interleaved with them.', (24000, 75), (600000, 3000),
      DST + 'seeded delivery schedules and interleaved readers, refinement against a model of WebVTT',
      'As C01 for WebVTT.'),
    p('C03', 'SSA and ASS scripts built from a model of styles, lines and override tags.', (24000, 75), (600000, 3000),
      DST + 'seeded delivery schedules and interleaved readers, refinement against a model of SSA/ASS',
      'As C01 for SSA/ASS.'),
    p('C04', 'Textual STL documents built from a model of settings, toggles and subtitles.', (24000, 75), (600000, 3000),
      DST + 'seeded delivery schedules and interleaved readers, refinement against a model of textual STL',
      'As C01 for textual STL.'),
    p('C05', 'Binary EBU STL files built by an independent encoder.', (20000, 75), (600000, 3000),
      DST + 'seeded delivery schedules and interleaved readers, refinement against an independent encoder',
      'As C01 for binary EBU STL.'),
    p('C06', 'Writing jobs (now and then one of more than a hundred thousand subtitles), sometimes over an older file, written with short writes and read back through a faulty source.', (15000, 75), (500000, 3000),
      DST + 'seeded short writes, reads back judged by the model and an independent decoder',
      'Seeded search over jobs and I/O schedules; bytes judged by an independent decoder and by the model.'),
    p('C07', 'Writing jobs with one failing open, write or close, or killed at some call, sometimes over an older file.', (20000, 75), (600000, 3000),
      DST + 'seeded write faults and kills, success and remains checked against the complete file',
      'Seeded search over fault kind, place and persistence; torn files read back. Power loss (page cache lost) is not simulated: the library never syncs and promises nothing about it.'),
    p('C08', 'One document read while one read of it fails, at a byte and for a duration the seed decides.', (22000, 75), (500000, 3000),
      DST + 'seeded read faults at every byte, refinement against the fault-free result',
      'Seeded search over fault kind, byte and persistence for all formats and sources.'),
    p('C09', 'One document cut at a byte the seed decides, favouring boundaries.', (30000, 75), (600000, 3000),
      DST + 'seeded cuts (crashed writer, lost tail), result compared with the model of the complete document',
      'Seeded search over documents and cut positions.'),
    p('C10', 'One document of any format with up to several stored bytes changed, then a sound document read to see that the library still works.', (26000, 75), (500000, 3000),
      DST + 'seeded corruption of stored bytes under AddressSanitizer and UndefinedBehaviorSanitizer',
      'Seeded search over damage; crash, hang, bad memory access and undefined behaviour judged by sanitizers and time limits; a sound document is read afterwards.'),
    p('C11', 'One operation with one allocation, or every allocation from one on, failing, then the same and other operations with memory.', (11000, 75), (300000, 3000),
      DST + 'seeded allocation failures, result and later operations compared with undisturbed ones',
      'Seeded search over the failing allocation; only allocations made by code of the library and its dependencies inside library calls are failed.', stub=STUB + ALLOC),
    p('C12', 'One operation with any fault, repeated; open descriptors and live memory compared between repetitions.', (6000, 75), (150000, 3000),
      DST + 'seeded faults, conservation of descriptors and live allocations across repetitions',
      'Growth between repetitions of the same operation in one process is the test, so one-time caches do not count.', stub=STUB + ALLOC),
    p('C13', 'Two to four threads, each doing operations on documents of its own or querying one reader that all share, under a scheduler that decides every switch.', (4000, 70), (200000, 3000),
      DST + 'seeded preemption of real threads at every shared access, happens-before race detection, results compared with running alone',
      'Threads run one at a time and switch where the seed says; races are judged by vector clocks over the instrumented code.', flavour='B',
      real=['all of /repo/src compiled from the working tree with calls to our own scheduler at every memory access, atomic and lock', 'header-only parts of libstdc++ and Boost that it instantiates, likewise'],
      stub=STUB + ['the thread scheduler and the ThreadSanitizer runtime: ours'],
      assumptions=['the compiled parts of libstdc++, Boost and ICU are not instrumented and are taken to be thread-safe as documented']),
    p('C14', 'A history of operations in one process, each repeated in a fresh process.', (11000, 75), (250000, 3000),
      DST + 'seeded histories with faults, each outcome compared with the same operation in a fresh process',
      'Outcomes include fragments, fields, exceptions and bytes written; results already handed out are dumped again at the end.'),
    p('C15', 'Operations repeated under C and C++ locales the seed picks, also changed between and during operations.', (15000, 75), (300000, 3000),
      DST + 'seeded locale changes, outcomes compared with the classic locale',
      'UTF-8 locales with other decimal points, grouping and letter case (de_DE, fr_FR, hi_IN, tr_TR) and a synthetic one; the locale also changes at I/O calls.'),
    p('C16', 'The same bytes, often damaged, read from every kind of source and split.', (22000, 75), (300000, 3000),
      DST + 'seeded delivery schedules, outcomes compared between sources',
      'Outcomes include the kind and text of errors.'),
    p('C17', 'Files opened by name through the factory and the dumpsubs program, with failing opens and reads and a failing standard output.', (16000, 75), (300000, 3000),
      DST + 'seeded failures of open, read and output; dispatch, dump and exit code compared with the model',
      'The dump is parsed and compared with the model; dumpsubs runs in-process with its real main().'),
    p('C18', 'SubRip and WebVTT documents with one malformed line.', (28000, 75), (600000, 3000),
      DST + 'seeded malformations and delivery schedules, error report compared with the document',
      'The kind, text and context of the error are compared with what the document says.'),
    p('C22', 'One or two SubRip, WebVTT, SSA or binary STL documents read from faulty sources, collected together and written with short writes.', (12000, 75), (500000, 3000),
      DST + 'seeded delivery of documents and of the written file; the bytes stored judged by the models of the documents and an independent decoder',
      'Seeded search over documents, deliveries and I/O schedules of a whole conversion; what is stored is decoded independently and compared with what the documents mean.'),
])
