"""Registry: which harness instantiations are verified, and which contracts decide which property."""
import z3
from .models import ELEM

CAPS = [(1000003,), (2000003,), (3000017,)]
CAPS_EVEN = [(1000008,), (2000040,), (3000016,)]   # multiples of 8: no tail padding for small element types
N = z3.Int("N")


class Group:
    def __init__(self, name, src, specs, caps=CAPS, capnames=("CAP",), syms=(N,), facts=None, defs=None, keep=(), flags=(),
                 models=ELEM, witness=(), what="", budget=400):
        self.name, self.src, self.mkspecs = name, src, specs
        self.caps, self.capnames, self.syms = caps, list(capnames), list(syms)
        self.facts = facts if facts is not None else [s >= 1 for s in syms] + [s <= 2 ** 40 for s in syms]
        self.defs, self.keep, self.flags, self.models = dict(defs or {}), tuple(keep), tuple(flags), list(models)
        self.witness, self.what, self.budget = list(witness), what, budget


GROUPS = {}


def group(*a, **k):
    g = Group(*a, **k)
    GROUPS[g.name] = g


def _ty(p, n):
    return p.glob(n)[0].fields[0]


# ------------------------------------------------------------------ sequences
from .contracts import seq


def vec_e(p):
    return seq.vec_specs(seq.SeqContracts(seq.VecView, _ty(p, 'g_S'), _ty(p, 'g_T'), ty2=_ty(p, 'g_S2')))


def seqw(v, d, c):
    return [("seq.cpp", {"VEC": v, "DEQ": d, "CIRC": c}), ("seq.cpp", {"VEC": v, "DEQ": d, "CIRC": c, "TRIV": 1})]


ROT = (r"std::(_V2::)?rotate<",)
group("vec", "vec.cpp", vec_e, keep=ROT, witness=seqw(1, 0, 0), what="FixedVector<E, N> with an opaque non-trivial element type E, symbolic capacity N")


def vec_i(p):
    return seq.vec_specs(seq.SeqContracts(seq.VecView, _ty(p, 'g_S'), _ty(p, 'g_T'), trivial=True, ty2=_ty(p, 'g_S2')))


group("vec_int", "vec.cpp", vec_i, caps=CAPS_EVEN, keep=ROT, defs={"ELT": "int", "TRIV": 1}, witness=seqw(1, 0, 0), what="FixedVector<int, N> (trivially copyable element), symbolic capacity N")

WRAP = (r"circular_indexing::(in|de)crement_index_with_wraparound",)


def deq(trivial, circ=False):
    return lambda p: seq.deque_specs(seq.SeqContracts(seq.DequeView, _ty(p, 'g_S'), _ty(p, 'g_T'), trivial=trivial, circ=circ, ty2=_ty(p, 'g_S2')))


group("deque", "deque.cpp", deq(False), keep=ROT + WRAP, witness=seqw(0, 1, 0), what="FixedDeque<E, N> with an opaque non-trivial element type E, symbolic capacity N")
group("deque_int", "deque.cpp", deq(True), caps=CAPS_EVEN, keep=ROT + WRAP, defs={"ELT": "int", "TRIV": 1}, witness=seqw(0, 1, 0), what="FixedDeque<int, N>, symbolic capacity N")

group("circ", "deque.cpp", deq(False, True), keep=ROT + WRAP, defs={"CIRC": 1}, witness=seqw(0, 0, 1), what="FixedCircularDeque<E, N> with an opaque non-trivial element type E, symbolic capacity N")
group("circ_int", "deque.cpp", deq(True, True), caps=CAPS_EVEN, keep=ROT + WRAP, defs={"ELT": "int", "TRIV": 1, "CIRC": 1}, witness=seqw(0, 0, 1), what="FixedCircularDeque<int, N>, symbolic capacity N")



def adapter(kind):
    names = "ctor_default ctor_range copy_ctor move_ctor copy_assign move_assign dtor push_back_copy push_back_copy@aliasing push_back_move emplace_back size max_size empty is_full equal less equal_other less_other back back_mut".split()
    names += ["pop_back"] if kind == 0 else ["pop_front", "front", "front_mut"]

    def f(p):
        C = seq.SeqContracts(seq.DequeView if kind else seq.VecView, _ty(p, 'g_S'), _ty(p, 'g_T'), circ=kind == 2, ty2=_ty(p, 'g_S2'))
        sp = (seq.deque_specs if kind else seq.vec_specs)(C)
        return [s for s in sp if s.name in names]
    return f


for _k, _n, _w in ((0, "stack", "FixedStack"), (1, "queue", "FixedQueue"), (2, "circ_queue", "FixedCircularQueue")):
    group(_n, "adapter.cpp", adapter(_k), keep=ROT + WRAP, defs={"KIND": _k}, witness=[("adapter.cpp", {"KIND": _k})], what=_w + "<E, N> with an opaque non-trivial element type E, symbolic capacity N")

from .contracts import arith, string

SVFIND = (r"^std::basic_string_view<char, std::char_traits<char> ?>::(r?find\((?!char,)|find_(first|last)_(not_)?of\()",)
group("string", "string.cpp", lambda p: string.string_specs(_ty(p, 'g_S'), _ty(p, 'g_T'), _ty(p, 'g_S2')), keep=ROT + SVFIND, caps=[(1000007,), (2000039,), (3000015,)], witness=[("string.cpp", {})],
      what="FixedString<N>, symbolic maximum length N")

group("arith", "arith.cpp", lambda p: arith.arith_specs(_ty(p, 'g_CI')), caps=[(1000003,)], witness=[("arith.cpp", {})], what="circular_indexing, int_math, integer_range, circular_integer_range_iterator for every 64-bit argument")

from .contracts import llist
group("dll", "dll.cpp", lambda p: llist.dll_specs(_ty(p, 'g_S'), _ty(p, 'g_T'), False), witness=[("list.cpp", {})],
      what="FixedDoublyLinkedListBase<E, N> primitives (constructor, emplace_after_index, delete_at) against the class invariant, symbolic capacity N")
group("dll_u64", "dll.cpp", lambda p: llist.dll_specs(_ty(p, 'g_S'), _ty(p, 'g_T'), True), defs={"ELT": "std::uint64_t", "TRIV": 1}, witness=[("list.cpp", {"TRIV": 1})],
      what="FixedDoublyLinkedListBase<std::uint64_t, N> primitives, symbolic capacity N")


def lst(triv):
    return lambda p: llist.list_specs(_ty(p, 'g_S'), _ty(p, 'g_T'), triv, [_ty(p, 'g_' + n) for n in ("It", "CIt", "RIt", "CRIt")], _ty(p, 'g_S2'))


group("list", "list.cpp", lst(False), keep=llist.KEEP, models=llist.LIST_MODELS + ELEM, witness=[("list.cpp", {})], what="FixedList<E, N> with an opaque non-trivial element type E, symbolic capacity N")
group("list_u64", "list.cpp", lst(True), keep=llist.KEEP, models=llist.LIST_MODELS + ELEM, defs={"ELT": "std::uint64_t", "TRIV": 1}, witness=[("list.cpp", {"TRIV": 1})],
      what="FixedList<std::uint64_t, N>, symbolic capacity N")

from .contracts import enums
group("enumset", "enums.cpp", lambda p: enums.enum_specs(p, 0, False), caps=CAPS_EVEN, defs={"KIND": 0}, witness=[("set.cpp", {"KIND": 4, "TRIV": 1})],
      what="EnumSet over an enum-like type with a symbolic number N of labels")
group("enummap", "enums.cpp", lambda p: enums.enum_specs(p, 1, False), caps=CAPS_EVEN, defs={"KIND": 1}, witness=[("map.cpp", {"KIND": 4}), ("map.cpp", {"KIND": 4, "TRIV": 1})],
      what="EnumMap with an opaque non-trivial value type E over an enum-like type with a symbolic number N of labels")
group("enummap_int", "enums.cpp", lambda p: enums.enum_specs(p, 1, True), caps=CAPS_EVEN, defs={"KIND": 1, "ELT": "int", "TRIV": 1}, witness=[("map.cpp", {"KIND": 4, "TRIV": 1})],
      what="EnumMap with int values over an enum-like type with a symbolic number N of labels")

group("enumarray", "enums.cpp", lambda p: enums.array_specs(p, False), caps=CAPS_EVEN, defs={"KIND": 2}, witness=[("enumarr.cpp", {}), ("enumarr.cpp", {"TRIV": 1})],
      what="EnumArray with an opaque non-trivial value type E over an enum-like type with a symbolic number N of labels")

# ------------------------------------------------------------------ properties
FUNC = ("functional", "frame", "termination", "vacuity", "invariant")


class Prop:
    def __init__(self, groups, tags, pick=None, thorough=(), bounded=(), level="proof", probes=()):
        self.probes = list(probes)
        self.groups, self.tags, self.pick, self.thorough, self.bounded, self.level = groups, set(tags), pick, list(thorough), list(bounded), level


def bnd(src, defs, cases, what, par=2):
    return {"src": src, "defs": defs, "cases": cases, "what": what, "par": par}


CIRC_INPUT = [bnd("seq.cpp", d, 60000, "FixedCircularDeque::insert(pos, input iterators) (with every other member), capacities 1,2,3,4,7,300, histories of up to 24 operations")
              for d in ({"VEC": 0, "DEQ": 0, "CIRC": 1}, {"VEC": 0, "DEQ": 0, "CIRC": 1, "TRIV": 1})]
SEQ = ["vec", "vec_int", "deque", "deque_int", "circ", "circ_int"]
SEQI = ["vec_int", "deque_int", "circ_int"]


def named(*pref):
    return lambda g, s: g == "arith" or s.name.split("@")[0] in pref or any(p.endswith("*") and s.name.startswith(p[:-1]) for p in pref)


def wraponly(g, s):
    return g != "arith" or s.name.startswith("wrap")


ADAPT = ["stack", "queue", "circ_queue"]
LIST = ["list", "dll"]
LISTT = ["list_u64", "dll_u64"]
LIST_TRIV_QUICK = named("ctor*", "copy*", "move*", "self*", "dtor", "clear", "emplace*", "push*", "pop*", "erase_one", "insert_copy", "assign*", "dll*")


LIST_LONG = named("move_assign", "copy_assign", "insert_input_it", "assign*", "resize*", "insert_range", "insert_ilist", "ctor_input_it")


def in_quick(g, s, prop):
    """quick tier: the trivially-copyable list instantiation shares its algorithms with the opaque one, so only the members that can differ;
    the long list proofs (all their obligations belong to C05) are not repeated for the properties that cut across containers"""
    if prop not in ("C05", "C12", "C15") and g in ("list", "list_u64") and LIST_LONG(g, s):
        return False
    return g != "list_u64" or LIST_TRIV_QUICK(g, s)


STR = ["string"]
ENUM = ["enumset", "enummap", "enummap_int", "enumarray"]
MAPS = "stateful comparator or hasher, histories of up to 48 operations, capacities 1,2,3,5,8,13,20 and 300"


def b_map(kind, cases, what, triv=(0, 1), src="map.cpp"):
    return [bnd(src, dict({"KIND": kind}, **({"TRIV": 1} if t else {})), cases * (2 if t else 1), what + (" with int elements" if t else " with non-trivial elements") + ", " + MAPS) for t in triv]


B_LIST = [bnd("list.cpp", d, 60000, "FixedList, every member, capacities 1,2,3,5,9, histories of up to 24 operations") for d in ({}, {"TRIV": 1})]
B_TREE = (b_map(0, 4000, "FixedMap (pool storage, embedded colour)") + b_map(1, 4000, "FixedMap (contiguous storage)") + b_map(2, 4000, "FixedMap (dedicated colour)", (0,))
          + b_map(0, 4000, "FixedSet (pool storage)", src="set.cpp") + b_map(1, 4000, "FixedSet (contiguous storage)", (0,), src="set.cpp") + b_map(2, 4000, "FixedSet (dedicated colour)", (0,), src="set.cpp"))
B_HASH = b_map(3, 6000, "FixedUnorderedMap with a colliding hash") + b_map(3, 6000, "FixedUnorderedSet with a colliding hash", src="set.cpp")
B_ENUM = b_map(4, 20000, "EnumMap over 7 labels") + b_map(4, 20000, "EnumSet over 7 labels", (1,), src="set.cpp") + [
    bnd("enumarr.cpp", d, 20000, "EnumArray, factories and builders of EnumSet and EnumMap over 7 labels, histories of up to 24 operations") for d in ({}, {"TRIV": 1})]

B_ALL = B_LIST + B_TREE + B_HASH + B_ENUM
B_CROSS = [dict(b, cases=b["cases"] // 2) for b in B_ALL]
B_NONTRIV = [b for b in B_CROSS if not b["defs"].get("TRIV")]

PROPS = {
    "C01": Prop(["vec", "vec_int"], FUNC),
    "C02": Prop(STR, FUNC + ("policy", "bounds")),
    "C03": Prop(["deque", "deque_int", "arith"], FUNC, pick=wraponly),
    "C04": Prop(["circ", "circ_int", "arith"], FUNC, pick=wraponly, bounded=CIRC_INPUT),
    "C05": Prop(LIST + LISTT, FUNC + ("policy", "bounds", "lifetime"), bounded=B_LIST),
    "C06": Prop([], FUNC + ("policy", "bounds", "lifetime"), bounded=B_TREE, level="exploration"),
    "C07": Prop([], FUNC + ("policy", "bounds", "lifetime"), bounded=B_HASH, level="exploration"),
    "C08": Prop(ENUM, FUNC + ("policy", "bounds", "lifetime"), bounded=B_ENUM),
    "C09": Prop(SEQ + STR + ADAPT + ["list", "enummap", "enummap_int"], ("policy", "vacuity"), pick=lambda g, s: s.policy is not None or g.endswith("_int"), bounded=B_CROSS),
    "C10": Prop(["vec", "deque", "circ"] + ADAPT + LIST + ["enummap", "enumarray"], ("lifetime", "vacuity"), bounded=B_NONTRIV, probes=["trivassign.cpp"]),
    "C11": Prop(SEQ + STR + LIST + ENUM, ("bounds", "vacuity"), bounded=B_CROSS),
    "C12": Prop(SEQ + STR + ADAPT + ["list", "list_u64", "enumset", "enummap", "enummap_int"], FUNC + ("lifetime",), pick=named("copy_ctor", "move_ctor", "copy_assign", "move_assign", "self_copy_assign", "self_move_assign", "dtor", "clear", "ctor_default"), bounded=B_CROSS),
    "C13": Prop(SEQ + STR + ADAPT + ["list"] + ENUM, FUNC + ("lifetime",), pick=named("equal*", "less*", "compare*"), bounded=B_CROSS),
    "C14": Prop(SEQ + STR + ["list", "enumset", "enummap"], FUNC + ("bounds",), pick=named("it_*", "rit_*")),
    "C15": Prop(LIST, ("stability", "vacuity"), bounded=B_LIST + B_TREE + B_HASH, level="exploration"),
    "C16": Prop(ADAPT, FUNC + ("policy", "lifetime", "bounds")),
    "C17": Prop(["arith"], FUNC + ("bounds", "policy")),
}
LEVEL = {k: p.level for k, p in PROPS.items()}
PROP_ASSUMPTIONS = {}
EXPLAIN = {}
NOTES = {}
NOTES["C04"] = ("every obligation discharged for every capacity 1..2^40, except insert(pos, input-iterator range), which is only checked by a bounded run "
                "(capacities 1,2,3,4,7,300; seeded histories of up to 24 operations; see evidence 'bounded'); assumptions as in evidence")
TECH = {}
for _p in ("C06", "C07"):
    TECH[_p] = "bounded check of the contracts on the real code (stand-in: red-black tree and robin-hood table are not within the reach of the contracts built here)"
    NOTES[_p] = "bounded, not proved: every contract is evaluated after every call of seeded histories of the real code at small capacities (bounds in evidence 'bounded')"
TECH["C15"] = "contract-based deductive verification for FixedList (obligations tagged stability); bounded check of the same contract for the trees and hash tables"
NOTES["C15"] = "proved for FixedList; for FixedMap/FixedSet and the hash containers bounded, not proved (seeded histories of the real code at small capacities; bounds in evidence 'bounded')"
_SUP = "every obligation discharged for every capacity 1..2^40"
NOTES["C05"] = _SUP + "; callers are checked against the contracts of the linked-list primitives, which are proved in group dll/dll_u64; a bounded run of the whole class (evidence 'bounded') is an additional check"
NOTES["C08"] = _SUP + " (number of labels); construction helpers outside the contracts (create_with_all_entries, create_with_keys, builders, complement_of, the EnumArray list constructors) are covered by a bounded run only (evidence 'bounded')"
for _p, _w in (("C09", "maps and sets based on trees and hash tables"), ("C10", "maps and sets based on trees and hash tables"), ("C11", "maps and sets based on trees and hash tables"),
               ("C12", "maps and sets based on trees and hash tables"), ("C13", "maps and sets based on trees and hash tables")):
    NOTES[_p] = _SUP + " for the sequence containers, strings, lists, adapters and enum containers listed in evidence 'groups'; %s are bounded only (evidence 'bounded')" % _w
TRUSTED = [
    "clang 18 front end and the LLVM passes used for normalisation (inline, sroa, early-cse, simplifycfg, instsimplify, loop-simplify)",
    "fcv (own VC generator, /verif/fcv): LLVM IR semantics, memory model, loop-invariant checker",
    "z3",
    "contracts of the opaque element/key types (their special members and comparisons behave like regular values), of memmove/memcpy/memset",
]
ASSUMPTIONS = [
    "capacity-parametricity: the IR of three instantiations (capacities 1000003, 2000003, 3000017) is merged; constants that differ are taken to be affine in the capacity, and the proof is for every capacity 1..2^40",
    "no exceptions (-fno-exceptions): element operations do not throw, the checking policy does not return",
    "callers pass valid iterators/positions of the container and ranges that do not overlap it; aliasing by element reference is covered where listed",
]
