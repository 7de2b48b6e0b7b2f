"""What each check runs: legs are (suite, profile, workers, cases per worker)."""


def std(suite, dbg, rel, thorough_factor=40):
    q = [(suite, "dbg", 5, dbg), (suite, "release", 3, rel)]
    t = [(suite, "dbg", 5, dbg * thorough_factor), (suite, "release", 3, rel * thorough_factor)]
    return {"legs": {"quick": q, "thorough": t}}


def both(*plans):
    return {"legs": {t: [x for p in plans for x in p["legs"][t]] for t in ("quick", "thorough")}}


PLAN = {
    "C01": std("C01", 600, 900),
    "C02": std("C02", 1500, 2500),
    "C03": std("C03", 1200, 2000),
    "C04": std("C04", 500, 800),
    "C05": std("C05", 500, 700),
    "C06": std("C06", 400, 600),
    "C07": std("C07", 400, 600),
    "C08": both(std("C08", 150, 250), std("C08a", 2, 3, 10), std("C08e", 1, 2, 10)),
    "C09": std("C09", 400, 600),
    "C10": std("C10", 500, 800),
    "C11": std("C11", 500, 700),
    "C12": both(std("C12", 500, 900), std("C12h", 200, 200)),
    "C13": both(std("C13", 2500, 6000), std("C13l", 2, 3, 10)),
    "C14": std("C14", 6000, 15000),
    "C15": std("C15", 10000, 20000),
    "C16": both(std("C16", 5000, 12000), std("C16l", 2, 3, 10)),
    "C17": both(std("C17", 8000, 20000), {"legs": {"quick": [("C17x", "dbg", 1, 1), ("C17x", "release", 1, 1)],
                                                  "thorough": [("C17x", "dbg", 2, 3), ("C17x", "release", 2, 3)]}}),
    "C18": std("C18", 4000, 10000),
    "C19": {"special": "c19", "technique": "property-based testing: generated type definitions, each compiled with the derive macro and with a hand-written twin, compared differentially"},
    "C20": std("C20", 300, 450),
    "C21": both(std("C21", 200, 300), std("C21d", 4000, 8000)),
    "C22": {**std("C22", 300, 450), "special": "c22", "quick_s": 300,
            "technique": "property-based testing: generated histories moved between threads and generated concurrent readers, natively against a model and under Miri's data-race detector; generated programs that send or share registries of generated component types, accepted or rejected by the compiler"},
    "C23": {**std("C23", 2500, 4000), "special": "c23", "quick_s": 300,
            "technique": "property-based testing: generated histories interpreted by Miri and run under AddressSanitizer and a checking allocator, compared with a model; generated borrow-misuse programs, rejected by the compiler while their reordered twins are accepted"},
    "C24": std("C24", 500, 800),
    "C25": std("C25", 150, 200),
    "C26": {"special": "c26", "quick_s": 300, "thorough_s": 2400,
            "technique": "property-based testing: generated programs, each built with and without the standard library in four configurations, what they print compared with a model"},
    "C27": std("C27", 6000, 9000),
}

TECHNIQUE = "property-based testing: generated histories against a reference model, in forked children, with shrinking"
NOTE = ("Exploration: seeded random cases in debug-assertion and release builds, each compared with an independent model; "
        "assumes the model is right and that documented preconditions hold. No claim beyond the cases explored.")
