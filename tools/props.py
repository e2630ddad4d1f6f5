"""Per-property settings of the simulation and what the evidence says about it."""
ALLOC = "the global allocator (counts, and refuses on the fault plan)"
CONV = "user conversions of custom field types (the simulator's own types, with fault points)"
COMMON = ["the client tasks and their scheduler are the simulator's; the shared word, images and messages live in simulated memory"]


def p(rule, stub, per=80, count=200_000, rounds=12, qrounds=1, **k):
    d = dict(rule=rule, stub=COMMON + stub, per=per, count=count, rounds=rounds, qrounds=qrounds)
    d.update(k)
    return d


EXTREME = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C11", "C12"]


INFO = {
    "C01": p("Each run schedules 2-5 owners of disjoint fields of one shared word (compare-and-swap, lock or operation-level interleaving) with crashes, stalls, lost races and spurious failures.", ["the shared cell (compare-and-swap word or lock)"]),
    "C02": p("Each run interleaves 1-4 clients issuing any operation the declaration provides, with crash and restart from an exported image, against a bit-vector model checked after every operation.", []),
    "C03": p("Each run is a hostile history of bit, range, whole-value and field operations with restarts; protected and hidden bits are tracked independently.", []),
    "C04": p("Each run mixes refused and accepted checked operations at arbitrary points of a history; each is repeated unchecked on a twin.", []),
    "C05": p("Each run injects panics into the k-th conversion of an operation, or feeds patterns on which a conversion panics.", [CONV]),
    "C06": p("Each run moves images between a writer, a torn store, a lossy link and restarted readers.", ["storage and link (torn, truncated, duplicated, reordered, lost, stale images)"]),
    "C07": p("Each run flips bits of stored images before they are imported.", ["storage (bit flips)"]),
    "C08": p("Each run formats values through sinks that fail after a byte budget or at a chosen write call.", ["the fmt::Write sink"]),
    "C09": p("Each run executes operations while the allocator refuses everything or the k-th request.", [ALLOC]),
    "C11": p("Each run feeds one log to 4-6 replicas of one layout over different storages, with crash, replay and state transfer.", ["the log and the state transfer"]),
    "C12": p("Each run resets a value at arbitrary points of a history and compares it with the declared power-on state.", []),
    "C13": p("Each run sends flag codes between 2-4 nodes over a lossy, corrupting link and restarts nodes from their stored codes.", ["link (lost, duplicated, reordered, flipped, foreign codes) and the nodes' memory (bit flips)"], count=280_000),
    "C14": p("Each run drives one member against the model, a fleet of three members declared with different spellings of the same settings, or flag codes between members, in a build with seeded global feature settings.", ["the log and the state transfer", "link and node memory of flag codes"], per=12, count=24_000, rounds=30, qrounds=6),
    "C15": p("Each run replays a history the compiler evaluated (operations, results and stored bits baked into constants) on replicas that restart from its snapshots.", ["the log; the constant evaluator is rustc's own"], per=45, count=80_000),
}
for _p in EXTREME:
    INFO[_p]["extreme"] = True
