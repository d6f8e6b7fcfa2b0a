"""What each check consists of: models (TLC on spec/mc) and recordings (a driver profile of the same name)."""

Q, T = "quick", "thorough"


def mc(module, cfg=None, **k):
    return dict(module=module, cfg=cfg or module, **k)


def proof(module):
    return dict(proof=module)


QUERY = {Q: [mc("MC_Query", "MC_Query_small", workers=4)], T: [mc("MC_Query", workers=8, mem="8g")]}
ALG = {Q: [mc("MC_QueryAlg", "MC_QueryAlg_small", workers=4)], T: [mc("MC_QueryAlg", workers=8, mem="8g")]}
CLAMP = [mc("MC_Clamp", workers=2)]
LOOKUP = {Q: [mc("MC_Intervals", workers=4), mc("MC_Sweeps"), mc("MC_Lookup", workers=2)],
          T: [mc("MC_Intervals", "MC_Intervals_deep", workers=8), mc("MC_Sweeps"), mc("MC_Lookup", workers=2), proof("LookupProof")]}
LISTS = {Q: [mc("MC_Merge", workers=3, scenarios=4000), mc("MC_Subtract", workers=3, scenarios=17000)],
         T: [mc("MC_Merge", "MC_Merge_deep", workers=8, scenarios=10**9), mc("MC_Subtract", "MC_Subtract_deep", workers=8, scenarios=10**9),
             proof("MergeProof"), proof("SubtractProof")]}
IVS = [mc("MC_Intervals", workers=4)]
SWEEP = [mc("MC_Sweeps")]
NORMAL = [mc("MC_Normal")]
BASE = ["TLC and the CommunityModules evaluate the specification correctly",
        "the driver writes down faithfully what the library returned"]
REF = BASE + ["spec/data/ucd_runs.json is the Unicode Character Database's general categories "
              "(cross-checked by tools/crosscheck_ucd.py against the sources available offline)"]

PLAN = {
    "C01": dict(models={Q: QUERY[Q] + ALG[Q], T: QUERY[T] + ALG[T]}, assumes=REF,
                what="replies to queries, each compared in full with the answer the specification computes from reference data"),
    "C02": dict(models={Q: IVS + NORMAL + [mc("MC_Runs", workers=4, scenarios=10**9)],
                        T: [mc("MC_Intervals", "MC_Intervals_deep", workers=8)] + NORMAL + [mc("MC_Runs", workers=4, scenarios=10**9)]},
                assumes=REF, what="answer lists judged by the canonical-form predicate; masks printed by TLC, answers compared"),
    "C03": dict(models={Q: QUERY[Q] + SWEEP + CLAMP, T: QUERY[T] + SWEEP + CLAMP + [proof("ClampProof")]}, assumes=BASE,
                what="answers over [min,max] against the clamped answer over the whole code space, incl. sweeps over every bound"),
    "C04": dict(models={Q: QUERY[Q] + SWEEP, T: QUERY[T] + SWEEP}, assumes=BASE,
                what="answers with characters against base answer plus/minus the character sets, incl. sweeps over every scalar value"),
    "C05": dict(models=QUERY, assumes=BASE,
                what="answers for include/exclude pairs against unions of recorded single-category answers"),
    "C06": dict(models={}, assumes=BASE, what="verdicts of intervals() and interval_set() over (min,max) pairs"),
    "C07": dict(models={Q: [mc("MC_Builder", workers=4, scenarios=8000)],
                        T: [mc("MC_Builder", workers=4, scenarios=10**9),
                            mc("MC_Builder", "MC_Builder_sim", scenarios=20000,
                               extra=["-simulate", "num=6000", "-depth", "20", "-seed", "SEED"])]},
                assumes=REF, what="builder histories printed by TLC, replayed with all replies compared, plus seeded long histories"),
    "C08": dict(models=LOOKUP, assumes=BASE,
                what="index lookups on sets, incl. sweeps over whole u32 segments"),
    "C09": dict(models=LOOKUP, assumes=BASE, what="index_above on sets, incl. sweeps over whole u32 segments"),
    "C10": dict(models={Q: [mc("MC_Iter", workers=4, scenarios=8000), mc("MC_FlatMap", workers=2)],
                        T: [mc("MC_FlatMap", workers=2), mc("MC_Iter", "MC_Iter_deep", scenarios=10**9, workers=8, mem="8g"),
                            mc("MC_Iter", "MC_Iter_sim", scenarios=20000,
                               extra=["-simulate", "num=6000", "-depth", "16", "-seed", "SEED"])]},
                assumes=BASE, what="iterator histories printed by TLC, replayed on sets of the same shape, plus seeded histories on real sets"),
    "C11": dict(models={Q: [mc("MC_CatSet", workers=4, scenarios=8000), mc("MC_CatBits")],
                        T: [mc("MC_CatBits"), mc("MC_CatSet", workers=4, scenarios=10**9),
                            mc("MC_CatSet", "MC_CatSet_sim", scenarios=20000,
                               extra=["-simulate", "num=6000", "-depth", "16", "-seed", "SEED"])]},
                assumes=BASE, what="category-set histories printed by TLC, replayed with full observation after every step"),
    "C12": dict(models={}, assumes=BASE, what="parsing and printing of names: all short strings over sampled alphabets and mutations of valid names"),
    "C13": dict(models={}, assumes=BASE, what="expansions of designation lists against the recorded normalised order"),
    "C14": dict(models={Q: [mc("MC_Bubble", workers=2)]}, assumes=BASE, what="normalised order of every version against the order computed from recorded interval counts"),
    "C15": dict(models={Q: IVS}, assumes=BASE, what="all tables of all versions: partition, canonical lists, three ways of obtaining each list"),
    "C16": dict(models={}, assumes=REF, what="all tables of all versions compared with the reference data"),
    "C17": dict(models={Q: IVS}, assumes=BASE, what="all pairs of version tables: stability laws; list of versions"),
    "C18": dict(models={}, and_python=True, assumes=BASE, what="questions asked again in other orders, in other processes and surroundings, and from concurrent threads, in Rust and in Python"),
    "C19": dict(python=True, models=QUERY, assumes=REF, what="calls of the Python query function compared with the specified answer"),
    "C20": dict(python=True,
                models={Q: [mc("MC_ListingCache", "MC_ListingCache_one", workers=2, scenarios=700),
                            mc("MC_ListingCache", workers=2, scenarios=500),
                            mc("MC_ListingCache", "MC_ListingCache_free", workers=2)],
                        T: [mc("MC_ListingCache", "MC_ListingCache_one", workers=2, scenarios=10**9),
                            mc("MC_ListingCache", workers=2, scenarios=10**9),
                            mc("MC_ListingCache", "MC_ListingCache_three", workers=8, scenarios=10**9),
                            mc("MC_ListingCache", "MC_ListingCache_free", workers=2)]}, assumes=BASE, what="call histories of the Python listing functions in fresh interpreters"),
    "C21": dict(python=True, models={}, assumes=REF, what="Python version members: all pairs, strings, and the data they select"),
    "C22": dict(python=True, models={}, assumes=REF, what="Python calls with all kinds of argument values, alone and combined"),
    "C27": dict(python=True, models={Q: [mc("MC_Call", workers=3, scenarios=10**9)]}, assumes=REF,
                what="calls of every shape of the Python functions, printed by TLC, with values for the arguments"),
    "C24": dict(features="internals", models=LISTS, assumes=REF,
                what="lists and pairs of lists printed by TLC, merged and subtracted; longer lists; strings; raw queries"),
    "C25": dict(script=True, models={Q: [mc("MC_TableGen", workers=4, scenarios=10**9)]},
                assumes=REF + ["the stand-ins for the download and for ucd-generate behave like the real ones",
                               "rustc reads back what a table file defines"],
                what="runs of generate_tables.py in every situation printed by TLC, with made-up and real databases; files compiled and read back"),
    "C26": dict(models={}, assumes=BASE, what="equality, hashes, printed forms and copies of values of all kinds, pair by pair; traits of the public types"),
    "C23": dict(models={}, unoptimised=True, assumes=BASE, what="calls with extreme arguments: every reply must be a documented one"),
}
