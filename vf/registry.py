"""Property id -> (module, function); what MANIFEST.json says about each."""
CHECKS = {
    "C01": ("uri_checks", "c01"),
    "C02": ("uri_checks", "c02"),
    "C03": ("uri_checks", "c03"),
    "C04": ("uri_checks", "c04"),
    "C05": ("uri_checks", "c05"),
    "C06": ("uri_checks", "c06"),
    "C07": ("uri_checks", "c07"),
    "C08": ("uri_checks", "c08"),
    "C09": ("text_checks", "c09"),
    "C10": ("text_checks", "c10"),
    "C11": ("text_checks", "c11"),
    "C12": ("text_checks", "c12"),
    "C13": ("parts_checks", "c13"),
    "C14": ("parts_checks", "c14"),
    "C15": ("parts_checks", "c15"),
    "C16": ("utf_checks", "c16"),
    "C17": ("utf_checks", "c17"),
    "C18": ("utf_checks", "c18"),
    "C19": ("utf_checks", "c19"),
    "C20": ("rule_checks", "c20"),
    "C21": ("uri_checks", "c21"),
    "C22": ("tool_checks", "c22"),
    "C23": ("algo_checks", "c23"),
    "C24": ("call_checks", "c24"),
    "C25": ("utf_checks", "c25"),
}

# the families of very long inputs (pump.py) each check performs besides
PUMP = {"C01": ["split"], "C02": ["split"], "C03": ["split"], "C04": ["compose"], "C05": ["compose"], "C06": ["join"], "C07": ["rds"],
        "C08": ["eq"], "C09": ["enc"], "C10": ["dec"], "C11": ["penc"], "C12": ["pdec"], "C13": ["sess"], "C14": ["sess"], "C15": ["sess"],
        "C16": ["push"], "C17": ["ill"], "C18": ["bytes"], "C19": ["view"], "C20": ["peg"], "C21": ["path"], "C23": ["algo"],
        "C25": ["len"]}

_G = ("TLA+ specification of the RFC 3986 grammar as an automaton, model-checked by TLC (deterministic, unambiguous); "
      "its transition cover replayed into the code; recorded calls judged by TLC")
TECHNIQUE = {
    "C01": _G,
    "C02": _G,
    "C03": _G,
    "C04": "TLA+ model of parts checked by TLC; automaton behaviours replayed; recorded calls judged by TLC",
    "C05": "TLA+ model of parts checked by TLC; recorded calls judged by TLC",
    "C06": "TLA+ transcription of RFC 3986 5.2 on texts and on segments, shown equal by TLC; recorded calls judged by TLC",
    "C07": "TLA+ transcription of RFC 3986 5.2.4 as a buffer machine, refinement shown by TLC; recorded calls judged by TLC",
    "C08": "TLA+ model of equality checked by TLC; recorded calls judged by TLC",
    "C09": "TLA+ definition of the encode sets and of encoding, checked by TLC; recorded calls judged by TLC",
    "C10": "TLA+ scanner machine checked by TLC; recorded calls of every decoding interface judged by TLC",
    "C11": "TLA+ transcription of RFC 3492 6.3 shown by TLC to agree with the abstract insertion order; recorded calls judged by TLC",
    "C12": "TLA+ transcription of RFC 3492 6.2 as a machine, checked by TLC; recorded calls judged by TLC",
    "C13": "TLA+ model of encoding by component, checked by TLC (round trip); recorded calls judged by TLC",
    "C14": "TLA+ model of decoding by component, checked by TLC (inverse of encoding); recorded calls judged by TLC",
    "C15": "TLA+ machine of stores, values and lifetimes, shown by TLC to be implemented by shared memory; histories drawn by TLC from it replayed into the code and judged",
    "C16": "TLA+ decoder machine shown by TLC to refine the definition of Unicode, for every scalar value; recorded behaviours judged by TLC",
    "C17": "TLA+ decoder machine shown by TLC to refine the maximal-subpart definition; recorded behaviours judged by TLC",
    "C18": "TLA+ byte stream machine shown by TLC to refine its definition; recorded behaviours judged by TLC",
    "C19": "TLA+ decoder machines checked by TLC; recorded traversals judged by TLC",
    "C20": "TLA+ matching machine (backtracking stack) shown by TLC to implement the PEG definition, for all small expressions; expressions replayed into the code, recorded runs judged by TLC",
    "C21": "TLA+ model of paths checked by TLC; recorded calls judged by TLC",
    "C22": "TLA+ machine of the tool reading bytes, checked by TLC against its definition; recorded runs of the program judged by TLC",
    "C23": "TLA+ definitions and scanning machines, shown equal by TLC; recorded calls on every kind of range judged by TLC",
    "C24": "TLA+ model of overlapping calls (own, shared, kept memory; settings) checked by TLC; histories of all other checks' calls recorded in many orders, threads, locales and builds and judged by TLC",
    "C25": "TLA+ definition of encoding forms checked by TLC; recorded calls judged by TLC",
}
_J = ("Every recorded call is judged by TLC against the specification; the calls come from enumeration of small inputs, "
      "seeded generation and coverage-guided generation on the current code. Assumes the specification transcribes the "
      "RFC; beyond the enumerated inputs the assurance is that of the sample. ")
_A = ("A transition cover (W-method) of the specification's minimal automaton is replayed, so any implementation "
      "with no more states than it is decided completely; others are sampled by random walks and a fuzzer. ")
NOTES = {
    "C01": _A + _J,
    "C02": _A + _J,
    "C03": _A + _J,
    "C04": _A + _J,
    "C05": _J,
    "C06": _J,
    "C07": _J + "Exhaustive for up to 6 (thorough: 8) segments of each kind.",
    "C08": _J,
    "C09": _J + "Exhaustive for single bytes in each set.",
    "C10": _J + "Exhaustive for each pair of bytes after '%' and for short strings over a six byte alphabet.",
    "C11": _J,
    "C12": _J + "The integer range is that of std::size_t (64 bits) and of 32 bit code points.",
    "C13": _J,
    "C14": _J,
    "C15": _J + "Histories of up to 9 calls on two stores and three values.",
    "C16": _J + "Thorough: every scalar value in every pair of forms.",
    "C17": _J + "Exhaustive for each byte after each kind of unfinished UTF-8 sequence.",
    "C18": _J + "Exhaustive for short streams over the bytes of the marks.",
    "C19": _J,
    "C20": _J + "Exhaustive for every byte against each single-character rule; small expressions over two letters (all of them in the thorough tier). A repetition of a rule that matched nothing is expected once, as in the code; bounds with min > max are outside the property.",
    "C21": _J,
    "C22": _J,
    "C23": _J + "Exhaustive for sequences of up to 4 (thorough: 6) elements of three values, on 13 kinds of range.",
    "C24": "Every call is recorded in about twenty histories; TLC judges that its results are one. Orders, threads (ThreadSanitizer), locales, memory contents, compilers vary; AddressSanitizer, UBSan and valgrind watch. Assurance is that of the sample of operations and schedules.",
    "C25": _J,
}
