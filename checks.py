"""What each property's check runs, per tier."""
from itertools import product

from lib import build, detection, digests, in_macro, interpreted, mc, raced, sharded, validated_reference

_USES = "0123456789abcd"


def first_ops(tier):
    """Histories to run as the very first operations inside a macro process: f force, u unforce, the rest uses."""
    out = []
    for n in (1, 2):
        out += ["".join(w) for w in product("fu" + _USES, repeat=n)]
    few = "fu023" if tier == "quick" else "fu" + _USES
    out += ["".join(w) for w in product(few, repeat=3)]
    return out


CHECKS = {
    "C01": {"quick": [mc("plain"), mc("plain", "deep"), mc("span", "deep"), mc("span")]},
    "C02": {"quick": [mc("plain"), mc("span"), mc("nodef")],
            "thorough": [validated_reference(), mc("plain"), mc("span"), mc("nodef")]},
    "C03": {"quick": [mc("plain"), mc("span")]},
    "C04": {"quick": [mc("plain"), mc("span"), mc("nodef")]},
    "C05": {"quick": [mc("plain"), mc("span"), mc("nodef")]},
    "C06": {"quick": [mc("plain"), mc("span"), mc("nodef")]},
    "C07": {"quick": [mc("plain"), mc("nodef"), mc("span")]},
    "C08": {"quick": [mc("plain"), mc("nodef")], "thorough": [mc("plain"), mc("nodef"), interpreted()]},
    "C09": {"quick": [mc("span"), mc("nodefspan")]},
    "C10": {"quick": [mc("span"), mc("nodefspan"), mc("exempt", "pairs"), mc("nightlyall", "pairs")]},
    "C11": {"quick": [mc("span"), mc("nodefspan")]},
    "C12": {"quick": [mc("plain"), mc("span"), mc("nodef")]},
    "C13": {"quick": [mc("exempt"), mc("exemptnodef")]},
    "C14": {"quick": [detection(), mc("plain"), in_macro("plain", "C14"), in_macro("plain", "C14", histories=first_ops),
                      mc("nightlyall", "short"), in_macro("nightlyall", "C14")]},
    "C15": {"quick": [in_macro("plain", "C15"), in_macro("nightly", "C15")]},
    "C16": {"quick": [in_macro("span", "C16"), in_macro("nightlyunst", "C16"), in_macro("nightlyall", "C16"), in_macro("msrv", "C16")]},
    "C17": {"quick": [digests(["plain", "span", "nodef", "nodefspan", "exempt", "exemptnodef", "plain+fast", "nightly", "nightlyspan",
                               "nightlyexempt", "nightlynodef", "nightlystable"])]},
    "C18": {"quick": [raced("tracednodefspan"), raced("tracedspan"), raced("tracedspan", "warm"), sharded("span", "threads")],
            "thorough": [raced("tracednodefspan"), raced("tracedspan"), raced("tracedspan", "warm"), sharded("span", "threads"), sharded("plain", "threads")]},
    "C19": {"quick": [mc("plain"), mc("span"), mc("nodef")]},
    "C20": {"quick": [mc("plain"), mc("span"), mc("nodef"), in_macro("plain", "C20"), in_macro("nightlyspan", "C20")]},
    "C21": {"quick": [mc("span"), mc("nodefspan"), in_macro("plain", "C21"), in_macro("nightly", "C21")]},
    "C22": {"quick": [mc("plain"), mc("span"), mc("nodef"), in_macro("plain", "C22"), in_macro("nightlyspan", "C22")]},
    "C23": {"quick": [in_macro("plain", "C23"), in_macro("nightlyall", "C23")]},
    "C24": {"quick": [mc("plain"), mc("span"), mc("nodef"), in_macro("plain", "C24"), in_macro("nightlyspan", "C24")]},
}

ASSUME = {
    "*": [
        "behaviour is decided exhaustively inside the enumerated spaces listed under coverage.spaces, and only there",
        "the harness is built with the installed stable toolchain with overflow checks and debug assertions on",
    ],
}


def setup():
    for c in ("plain", "span", "exempt"):
        build(c)


HOOKS = None
NOT_APPLICABLE = {}

_IN = "bounded exhaustive enumeration of inputs on the real code, every outcome compared with an independent reference model"
_HI = "bounded exhaustive enumeration of operation histories on the real code in lockstep with a plain sequence model"
NOTES = {
    "C01": ("exhaustive enumeration of input strings, truncations, sizes and nesting depths on the real parser; monitor: no panic, crash or hang",
            "Holds for every string of the listed spaces, with overflow checks on and with deep nesting on a 256 KiB stack."),
    "C02": (_IN, "Every string of the listed spaces is lexed as the reference lexer says; the thorough tier validates that reference against rustc's own lexer."),
    "C03": ("exhaustive enumeration of token sequences x separators and of comment bodies x styles on the real parser; metamorphic oracle",
            "Every combination within the bound parses like its canonical form."),
    "C04": (_IN, "Every parsable string of the spaces and every well-formed constructed tree within the bound round-trips."),
    "C05": (_IN, "Every value of the enumerated domains is evaluated back from the printed text by an independent evaluator."),
    "C06": (_HI, "Every way of entering a stream x every signed constructor x every position within the bound, spans included."),
    "C07": (_HI, "Every operation history within the bound agrees with the vector model."),
    "C08": ("exhaustive enumeration of operation histories with a panic injected at every iterator step; counting, poisoning allocator as monitor",
            "Every history within the bound keeps the streams sound and balances its allocations; the thorough tier also runs histories under Miri."),
    "C09": (_IN, "Every token of every parsable string of the spaces reports exactly its place."),
    "C10": ("exhaustive enumeration of query orders and of parse/query/invalidate histories on the real source table, compared with a plain model",
            "Every history and query order within the bound gives the model's answers."),
    "C11": (_IN, "Every rejected string of the spaces reports the position the reference lexer gives."),
    "C12": (_IN, "Every scalar in every position and every short string is accepted or refused as the identifier grammar says."),
    "C13": (_IN, "Every literal of the spaces yields the value an independent evaluator computes."),
    "C14": ("stateless exploration of all interleavings of the crate's own detection code under a controlled scheduler (linearizability), and exhaustive enumeration of force/unforce/use histories in fresh processes outside and inside rustc",
            "Every schedule of two threads (three, preemption-bounded) and every history within the bound uses the implementation the specification names."),
    "C15": ("bounded exhaustive enumeration of operation histories inside a real procedural macro in lockstep with a plain sequence model",
            "Every history within the bound, run inside rustc on the compiler's token streams, agrees with the vector model."),
    "C16": ("bounded exhaustive enumeration of token trees, sources and constructor arguments inside a real procedural macro, compared with the compiler's own tokens",
            "Every conversion, constructor, span query and parse within the bound gives what the compiler gives."),
    "C17": ("bounded exhaustive enumeration of inputs, constructions and histories in every build configuration, outcomes compared case by case",
            "Every case of the listed spaces has the same outcome in all twelve configurations."),
    "C18": ("stateless exploration of thread interleavings on the real library: all orders of whole operations, and preemption-bounded schedules with every allocation as a scheduling point",
            "Every schedule within the bound gives each thread what it sees alone in a process of its own."),
    "C20": (_IN, "Every stream of the spaces, parsed or constructed, is shown by Debug exactly as its tokens read through the accessors."),
    "C21": (_HI + ", outside and inside a real procedural macro; every token carries a span of its own",
            "Every token read back after every history within the bound has the span it was given."),
    "C22": ("exhaustive enumeration of fault and re-entrancy points: every act at every callback of every operation on the real code, against a model and the undisturbed run",
            "Every act, and every two acts, at every callback within the bound gives the specified results inside the callback, in the operation and in every other stream."),
    "C23": ("bounded exhaustive enumeration of histories of force, unforce and stream operations inside a real procedural macro in lockstep with a plain sequence model",
            "Every history within the bound leaves every object, whichever implementation made it, with the tokens of the model."),
    "C24": ("exhaustive enumeration of failing calls x uses and of uses in destructors (unwinding, nested unwinding, thread exit in every order) on the real code, compared with the undisturbed run",
            "After every failure, and in every destructor context, every use within the bound gives what it gives ordinarily."),
    "C19": (_IN, "Every string of the spaces is accepted as a literal exactly if the reference lexer says it is one."),
}
