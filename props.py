"""Property -> harnesses and bounds.

Every entry: h = harness function, src = harness source, params = bounds of the quick tier,
thorough = bounds that replace them in the thorough tier, defs = preprocessor definitions,
flags = engine options, tiers = tiers that run it, reach = witness labels that must be reached,
about = what the harness quantifies over.
"""
import os
HERE = os.path.dirname(os.path.abspath(__file__))
ASSUMPTIONS = [
 "operator new never fails (allocation failure is outside the bounds)",
 "single thread",
 "compiled as C++20 with clang 18 at -O2 against libstdc++ 13; user-supplied functors do not throw",
]

def _findings():
    r = []
    try:
        for l in open(os.path.join(HERE, "known_findings.txt")):
            l = l.strip()
            if l.startswith("known: property="):
                pid, _, rest = l[len("known: property="):].partition(" ")
                hid, _, what = rest.partition(" ")
                r.append((pid, hid, what))
    except FileNotFoundError: pass
    return r
def known(pid):
    """Findings that are recorded, not repaired.  A harness excludes exactly the listed input class by an assumption
    that quotes the identifier; nothing here suppresses any other violation."""
    return ["%s %s" % (h, w) for p, h, w in _findings() if p == pid]

T = dict
Q = ("quick",)
TH = ("thorough",)
FS = ["-fs"]
D12 = ["-DDIM=1", "-DMINN=1", "-DMAXN=2"]
D24 = ["-DDIM=1", "-DMINN=2", "-DMAXN=4"]
D2D = ["-DDIM=2", "-DMINN=1", "-DMAXN=2"]
DRE = ["-DDIM=1", "-DMINN=1", "-DMAXN=2", "-DREINS=1"]
DTK = ["-DDIM=1", "-DMINN=1", "-DMAXN=2", "-DUSE_TOK=1"]
CHECKS = {
 "F01": [T(h="fst_insert", src="fst.cpp", params=T(N=2), thorough=T(N=3), about="N insertions (front/back chosen, any segment, any value) against last-write-wins at any probe key; reported change flag"),
         T(h="fst_hint", src="fst.cpp", params=T(N=1), thorough=T(N=2), about="insertion with any position iterator as hint, and use of the iterator returned")],
 "F02": [T(h="fst_query", src="fst.cpp", params=T(N=2), thorough=T(N=3), about="linear search, tree search, iteration, segment iteration agree; canonical form; after N insertions"),
         T(h="fst_hint_search", src="fst.cpp", params=T(N=2), thorough=T(N=3), about="search from any position")],
 "F03": [T(h="fst_shift", src="fst.cpp", params=T(N=2, M=1), thorough=T(N=2, M=2), about="N insertions, then M shifts left or right by any amount at any place"),
         T(h="fst_shift", src="fst.cpp", params=T(N=3, M=1), tiers=TH, about="same, one more insertion")],
 "F04": [T(h="fst_copy", src="fst.cpp", params=T(), about="copy, move, assignment, swap, clear, equality between trees built by any two insertions each")],
 "S01": [T(h="st_search", src="st.cpp", params=T(N=3), thorough=T(N=5), about="any N segments inserted, any probe key: result list, callback, iteration agree with a scan")],
 "S02": [T(h="st_erase", src="st.cpp", params=T(N=2, E=1, MORE=1), about="N segments, erase by value/predicate, reinsertion, rebuild"),
         T(h="st_erase", src="st.cpp", params=T(N=3, E=1, MORE=0), thorough=T(N=3, E=2, MORE=1), about="the same with one more segment")],
 "S03": [T(h="st_copy", src="st.cpp", params=T(), about="copy, move, swap, assignment"),
         T(h="st_equal", src="st.cpp", params=T(), about="equality is multiset equality of segments"),
         T(h="st_insert_invalid", src="st.cpp", params=T(), about="empty and reversed segments")],
 "P01": [T(h="pqt_map", src="pqt.cpp", params=T(N=3), thorough=T(N=5), about="any N points inserted: find returns the last value"),
         T(h="pqt_region", src="pqt.cpp", params=T(N=3), thorough=T(N=4), about="any region search against a scan")],
 "P02": [T(h="pqt_remove", src="pqt.cpp", params=T(N=2, R=2, Q=1), thorough=T(N=3, R=3), about="insert, remove, insert again, search"),
         T(h="pqt_remove", src="pqt.cpp", params=T(N=4, R=1, INS=0), thorough=T(N=4, R=2, INS=0), about="removal from a tree of N points in any arrangement"),
         T(h="pqt_remove", src="pqt.cpp", params=T(N=5, R=1, INS=0), tiers=TH, about="the same with five points"),
         T(h="pqt_remove", src="pqt.cpp", params=T(N=3, R=2, INS=0, Q=1), thorough=T(N=4, R=2, INS=0, Q=0), about="two removals in a row"),
         T(h="pqt_deep", src="pqt.cpp", params=T(PRE=10, LAYOUTS=6, R=2, INS=0), thorough=T(LAYOUTS=30, PRE=12), about="larger fixed trees: any two points removed, any lookup"),
         T(h="pqt_deep", src="pqt.cpp", params=T(PRE=9, LAYOUTS=3, R=3, INS=0), thorough=T(LAYOUTS=10), about="any three removed"),
         T(h="pqt_deep", src="pqt.cpp", params=T(PRE=7, LAYOUTS=3, R=1), thorough=T(PRE=8, R=2), about="then any point inserted")],
 "P03": [T(h="pqt_copy", src="pqt.cpp", params=T(), about="copy, move, swap, clear, equality")],
 "R01": [T(h="rt_insert", src="rtree.cpp", defs=D12, flags=FS, params=T(N=3, Q=1), thorough=T(N=4, Q=1), about="1-D, capacity 2: N points or extents anywhere, any overlap/match query"),
         T(h="rt_insert", src="rtree.cpp", defs=D2D, flags=FS, params=T(N=2, RNG2=1), thorough=T(N=3, RNG2=1), about="2-D"),
         T(h="rt_insert", src="rtree.cpp", defs=DRE, flags=FS, params=T(N=3, Q=1), thorough=T(N=4, Q=1), about="with forced reinsertion")],
 "R02": [T(h="rt_erase", src="rtree.cpp", defs=D12, flags=FS, params=T(N=3), thorough=T(N=4), about="N arbitrary values, one erased through an iterator"),
         T(h="rt_erase", src="rtree.cpp", defs=D12, flags=FS, params=T(N=1, R=2, PRE=8, Q=0), thorough=T(N=1, R=4, PRE=8, Q=1), about="a three-level tree, any two values erased"),
         T(h="rt_erase", src="rtree.cpp", defs=D24, flags=FS, params=T(N=1, R=3, INS=1, PRE=4, Q=0), thorough=T(N=2, R=3, INS=1, PRE=4, Q=0), about="capacity 4 minimum 2: erasures and insertions")],
 "R03": [T(h="rt_insert", src="rtree.cpp", defs=D12, flags=FS, params=T(N=4, Q=0), thorough=T(N=5, Q=0), about="structure after insertions"),
         T(h="rt_erase", src="rtree.cpp", defs=D24, flags=FS, params=T(N=0, R=12, PRE=36, NEAR=1, CONSTIT=1, Q=0), about="four-level tree thinned out over any neighbourhood"),
         T(h="rt_erase", src="rtree.cpp", defs=D24, flags=FS, params=T(N=0, R=3, INS=1, PRE=30, NEAR=1, CONSTIT=1, Q=0), about="insertions and erasures in a large tree"),
         T(h="rt_erase", src="rtree.cpp", defs=D2D, flags=FS, params=T(N=2, Q=0, RNG2=1), thorough=T(N=3, Q=0, RNG2=1), about="2-D erase"),
         T(h="rt_insert", src="rtree.cpp", defs=DRE, flags=FS, params=T(N=4, KIND=0, Q=0), thorough=T(N=5, KIND=0, Q=0), about="structure with forced reinsertion")],
 "R04": [T(h="rt_bulk", src="rtree.cpp", defs=D12, flags=FS, params=T(N=2), thorough=T(N=3), about="bulk load of N arbitrary values, then searches and insertion"),
         T(h="rt_bulk", src="rtree.cpp", defs=D12, flags=FS, params=T(N=5, Q=0, MORE=0), thorough=T(N=6, Q=0, MORE=0), about="structure of a bulk loaded tree"),
         T(h="rt_bulk", src="rtree.cpp", defs=D24, flags=FS, params=T(N=5, Q=0, MORE=0), thorough=T(N=6, Q=0, MORE=0), about="capacity 4")],
 "R05": [T(h="rt_copy", src="rtree.cpp", defs=D12, flags=FS, params=T(N=2), thorough=T(N=3), about="copy, move, swap, clear; independence"),],
}
IO = ["-DSYIO"]
CHECKS.update({
 "M01": [T(h="ssm_linear", src="ssm.cpp", params=T(N=3, L=2), thorough=T(N=4, L=3), about="any sorted table of up to N keys of up to L bytes, any query, any value"),
         T(h="ssm_linear", src="ssm.cpp", params=T(N=3, L=1, PFX=48), thorough=T(N=4, L=2, PFX=48), about="keys that differ only after 48 bytes"),
         T(h="ssm_hash", src="ssm.cpp", params=T(N=3, L=2), thorough=T(N=3, L=3), about="with the hashed reverse lookup; two hash values")],
 "T01": [T(h="trie_map", src="trie.cpp", params=T(N=2, L=2, R=1), thorough=T(N=3, L=2, R=1), about="N insertions, an erasure, then lookup and node walk; any key bytes"),
         T(h="trie_map", src="trie.cpp", params=T(N=2, L=2, R=1, A=1, NODES=0), opt=["nodevalue"], thorough=T(N=2, L=2, R=2, A=1), about="the same with insertion after the erasure"),
         T(h="trie_map", src="trie.cpp", defs=["-DUNIT=char32_t", "-DULO=0", "-DUHI=4294967295L"], params=T(N=2, L=1, R=1), thorough=T(N=3, L=2, R=1), about="32-bit key units"),
         T(h="trie_map", src="trie.cpp", params=T(N=3, L=3, SORTED=1), tiers=TH, about="longer keys")],
 "T02": [T(h="trie_iter", src="trie.cpp", params=T(N=3, L=2), thorough=T(N=4, L=2), about="forward and backward iteration, prefix search, iteration from a found key"),
         T(h="trie_iter", src="trie.cpp", params=T(N=2, L=2, R=1), thorough=T(N=3, L=2, R=1), about="the same after an erasure"),
         T(h="trie_iter", src="trie.cpp", params=T(N=3, L=3, SORTED=1), thorough=T(N=4, L=3, SORTED=1), about="longer keys")],
 "T03": [T(h="trie_packed", src="trie.cpp", params=T(N=3, L=2, SORTED=1), thorough=T(N=4, L=2, SORTED=1), about="packed by copy, by move, from entries: lookup, nodes, iteration, prefix search"),
         T(h="trie_packed", src="trie.cpp", params=T(N=5, L=1, SORTED=1, EMPTYKEY=0), thorough=T(N=8, L=1, SORTED=1, EMPTYKEY=0), opt=["nodevalue", "several"], about="one node with N children"),
         T(h="trie_packed", src="trie.cpp", defs=["-DUNIT=char16_t", "-DULO=0", "-DUHI=65535", "-DPACKT=uint16_t"], params=T(N=2, L=2), thorough=T(N=3, L=2), about="16-bit key units and pack type"),
         T(h="trie_small", src="trie.cpp", defs=["-DPACKT=uint8_t"], params=T(MAX=70), thorough=T(MAX=140), about="8-bit pack type, content of every size that fits (see known finding T03-small-pack)")],
 "T04": [T(h="trie_state", src="trie.cpp", defs=IO, params=T(N=3, L=2), thorough=T(N=4, L=2), about="save then load, any map, then every way of looking at it"),
         T(h="trie_state_string", src="trie.cpp", defs=IO, params=T(N=2, L=1, VL=2, TRUNC=1), thorough=T(N=2, L=2, VL=3, TRUNC=1), about="string values; state cut short anywhere"),
         T(h="trie_state_vector", src="trie.cpp", defs=IO, params=T(N=2, L=1, VL=2, TRUNC=1), about="vector values; state cut short anywhere"),
         T(h="trie_state_string", src="trie.cpp", defs=IO, params=T(N=2, L=1, VL=1, LONG=300), reach=["full"], about="string values longer than 255 bytes"),
         T(h="trie_state_vector", src="trie.cpp", defs=IO, params=T(N=2, L=1, VL=1, LONG=300), reach=["full"], about="vectors of more than 255 elements"),
         T(h="trie_state_byte", src="trie.cpp", defs=IO, params=T(N=2, L=1, TRUNC=1), about="8-bit values"),
         T(h="trie_state_long", src="trie.cpp", defs=IO, params=T(N=2, L=1, TRUNC=1), about="64-bit values"),
         T(h="trie_state_bool", src="trie.cpp", defs=IO, params=T(N=2, L=1, TRUNC=1), about="bool values"),
         T(h="trie_state_mismatch", src="trie.cpp", defs=IO, params=T(), about="state of another value type")],
 "T05": [T(h="trie_copy", src="trie.cpp", defs=["-DUSE_TOK"], params=T(N=1, L=2), thorough=T(N=2, L=2), about="copy, move, assignment, swap, clear; owning values"),
         T(h="trie_equal", src="trie.cpp", params=T(N=2, L=2), thorough=T(N=3, L=2), about="equality of maps and packed maps"),
         T(h="trie_packed_copy", src="trie.cpp", defs=["-DUSE_TOK"], params=T(N=2, L=2), thorough=T(N=3, L=2), about="packed copies, moves, assignment, swap, default constructed")],
})

MA, MM, MN, ME, MC, MF = ["-DAOS"], ["-DMGD"], ["-DNCM"], ["-DEVENTS"], ["-DCOW"], ["-DFLAGS"]
WR, SH = 455, 56    # masks of operations: writing in place and at the end; shifting
STEP_OPT = ["set", "range", "empty", "erase", "insert", "insert-empty", "push", "resize", "misc", "inside", "beyond"]
def step(defs=(), tiers=None, thorough=None, about="", mask=511, **kw):
    names = [(1, "set"), (2, "range"), (4, "empty"), (8, "erase"), (16, "insert"), (32, "insert-empty"), (64, "push"), (128, "resize"), (256, "misc")]
    d = T(h="mtv_step", src="mtv.cpp", defs=list(defs), params=T(OPS=mask, **kw), opt=[n for b, n in names if not mask & b], about=about)
    if tiers: d["tiers"] = tiers
    if thorough: d["thorough"] = thorough
    return d
CHECKS.update({
 "V01": [step(mask=WR, B=3, D=2, L=2, thorough=T(B=4, L=3), about="any vector of up to B blocks, any writing operation, any probe position; SoA layout"),
         step(MA, mask=WR, B=3, D=2, L=2, thorough=T(B=4, L=3), about="the same; AoS layout"),
         step(mask=WR, B=2, D=1, L=1, N=2, thorough=T(L=2), about="two operations in sequence; SoA"),
         step(MA, mask=WR, B=1, D=1, L=1, N=2, thorough=T(B=2, L=2), about="two operations in sequence; AoS")],
 "V02": [step(mask=SH, B=3, D=2, L=2, thorough=T(B=4, L=3), about="any vector of up to B blocks, any insertion or erasure, any probe; SoA layout"),
         step(MA, mask=SH, B=3, D=2, L=2, thorough=T(B=4, L=3), about="the same; AoS layout"),
         step(mask=SH, B=2, D=1, L=1, N=2, thorough=T(L=2), about="two operations in sequence; SoA"),
         step(MA, mask=SH, B=2, D=1, L=1, N=2, thorough=T(L=2), about="two operations in sequence; AoS"),
         step(mask=511, B=2, D=1, L=1, N=2, tiers=TH, about="any two operations; SoA"), step(MA, mask=511, B=2, D=1, L=1, N=2, tiers=TH, about="any two operations; AoS")],
 "V03": [T(h="mtv_read", src="mtv.cpp", params=T(B=3), thorough=T(B=4), about="lookup with any hint, stepping, iteration; SoA"),
         T(h="mtv_read", src="mtv.cpp", defs=MA, params=T(B=3), thorough=T(B=4), about="the same; AoS"),
         step(mask=63, B=2, D=2, HINT=1, thorough=T(B=3), about="every operation that takes a hint, with any hint; SoA"),
         step(MA, mask=63, B=2, D=2, HINT=1, thorough=T(B=3), about="the same; AoS"),
         T(h="mtv_transfer", src="mtv.cpp", params=T(B=2, D=1, HINT=1), thorough=T(D=2), about="hinted transfer; SoA")],
 "V04": [T(h="mtv_transfer", src="mtv.cpp", params=T(B=2, D=1), thorough=T(D=2), about="any range of one vector to any place of another; SoA"),
         T(h="mtv_swap", src="mtv.cpp", params=T(B=2, D=1), thorough=T(D=2), about="any two ranges; SoA"),
         T(h="mtv_transfer", src="mtv.cpp", defs=MA, params=T(B=2, D=1), thorough=T(D=2), about="transfer; AoS"),
         T(h="mtv_swap", src="mtv.cpp", defs=MA, params=T(B=2, D=1), thorough=T(D=2), about="swap; AoS")],
 "V05": [T(h="mtv_release", src="mtv.cpp", defs=MM, params=T(B=2, D=3), thorough=T(B=3), about="release of any element or range of owned elements; SoA"),
         T(h="mtv_release", src="mtv.cpp", defs=MM + MA, params=T(B=2, D=3), thorough=T(B=3), about="the same; AoS"),
         step(MM, B=2, D=2, thorough=T(B=3), about="any operation on owned elements; SoA"), step(MM + MA, B=2, D=2, thorough=T(B=3), about="any operation on owned elements; AoS"),
         step(MM, B=1, D=3, L=3, thorough=T(B=2), about="longer blocks"),
         T(h="mtv_transfer", src="mtv.cpp", defs=MM, params=T(B=2, D=1), about="transfer of owned elements; SoA"), T(h="mtv_swap", src="mtv.cpp", defs=MM, params=T(B=2, D=1), about="swap of owned elements; SoA"),
         T(h="mtv_transfer", src="mtv.cpp", defs=MM + MA, params=T(B=2, D=1), about="transfer of owned elements; AoS"), T(h="mtv_swap", src="mtv.cpp", defs=MM + MA, params=T(B=2, D=1), about="swap of owned elements; AoS"),
         step(MN, B=2, D=2, tiers=TH, about="non-copyable owned elements")],
 "V06": [T(h="mtv_copy", src="mtv.cpp", params=T(B=2, D=1, OPS=9), thorough=T(OPS=511), about="any copy, move, clone or swap, then a change, then reading any of them; SoA"),
         T(h="mtv_copy", src="mtv.cpp", defs=MA, params=T(B=2, D=1, OPS=9), thorough=T(OPS=511), about="the same; AoS"),
         T(h="mtv_copy", src="mtv.cpp", defs=MM, params=T(B=2, D=1, B1=0, OPS=9), thorough=T(OPS=511), about="owned elements"),
         T(h="mtv_copy", src="mtv.cpp", defs=MN, params=T(B=2, D=1, B1=0, OPS=9), thorough=T(OPS=511), about="owned elements that cannot be copied"),
         T(h="mtv_equal", src="mtv.cpp", params=T(B=2, D=2), thorough=T(B=3), about="equality of any two vectors; SoA"), T(h="mtv_equal", src="mtv.cpp", defs=MA, params=T(B=2, D=2), thorough=T(B=3), about="equality; AoS"),
         T(h="mtv_make", src="mtv.cpp", params=T(B=2), thorough=T(B=3), about="constructors; SoA"), T(h="mtv_make", src="mtv.cpp", defs=MA, params=T(B=2), thorough=T(B=3), about="constructors; AoS")],
 "V07": [step(ME, B=2, D=2, thorough=T(B=3), about="any operation; SoA"), step(ME + MA, B=2, D=2, thorough=T(B=3), about="any operation; AoS"),
         T(h="mtv_transfer", src="mtv.cpp", defs=ME, params=T(B=2, D=1), about="transfer; SoA"), T(h="mtv_swap", src="mtv.cpp", defs=ME, params=T(B=2, D=1), about="swap; SoA"),
         T(h="mtv_transfer", src="mtv.cpp", defs=ME + MA, params=T(B=2, D=1), about="transfer; AoS"), T(h="mtv_swap", src="mtv.cpp", defs=ME + MA, params=T(B=2, D=1), about="swap; AoS"),
         T(h="mtv_copy", src="mtv.cpp", defs=ME, params=T(B=2, D=1, M=0), thorough=T(M=1), about="copy, move, clone, swap; SoA"), T(h="mtv_copy", src="mtv.cpp", defs=ME + MA, params=T(B=2, D=1, M=0), thorough=T(M=1), about="copy, move, clone, swap; AoS"),
         T(h="mtv_release", src="mtv.cpp", defs=ME + MM, params=T(B=2, D=2), about="release"),
         step(ME, B=2, D=1, N=2, L=1, tiers=TH, about="two operations in sequence")],
 "V08": [T(h="mtv_copy", src="mtv.cpp", defs=MC, params=T(B=2, D=1, B1=0), about="any clone, copy or move, then any operation on either"),
         T(h="mtv_copy", src="mtv.cpp", defs=MC, params=T(B=1, D=1, B1=0, M=2, OPS=29), thorough=T(D=2, OPS=63), about="two changes after the clone"),
         T(h="mtv_copy", src="mtv.cpp", defs=MC + MM + ME, params=T(B=2, D=1, B1=0, DETACH=1), about="owned elements, and detaching"),
         T(h="mtv_copy", src="mtv.cpp", defs=MC + MM + ME, params=T(B=2, D=2, B1=0, DETACH=1), tiers=TH, about="the same with longer blocks"),
         T(h="mtv_copy", src="mtv.cpp", defs=MC, params=T(B=1, D=1, B1=0, N=2, M=1), about="a clone of a clone"),
         T(h="mtv_copy", src="mtv.cpp", defs=MC, params=T(B=2, D=1, B1=0, M=0, XFER=1), thorough=T(D=2), about="transfer or swap of ranges between a sharer and a third vector"),
         T(h="mtv_copy", src="mtv.cpp", defs=MC + MM + ME, params=T(B=1, D=1, B1=0, M=0, XFER=1), thorough=T(B=2), about="the same with owned elements"),
         T(h="mtv_copy", src="mtv.cpp", defs=MC + MM + ME, params=T(B=2, D=2, B1=0, M=0, REL=1), about="release of elements from a sharer")],
 "V11": [T(h="mtv_fault", src="mtv.cpp", defs=MN + d, params=T(B=2, D=3), thorough=T(B=3), about=a) for d, a in [([], "failing clone; SoA"), (ME + MA, "failing clone; AoS, events"), (ME, "failing clone; SoA, events")]] +
        [T(h="mtv_fault", src="mtv.cpp", defs=MN + MC + ME, params=T(B=2, D=2), thorough=T(B=3), about="with copy-on-write: a failing clone in any operation on a sharer, or in detach")],
 "V09": [T(h="ddv_history", src="ddv.cpp", params=T(N=3), thorough=T(N=4), about="any history of N operations after any number of front removals"),
         T(h="ddv_history", src="ddv.cpp", defs=["-DBIT"], params=T(N=2), thorough=T(N=3), about="a store of bools"),
         T(h="ddv_history", src="ddv.cpp", defs=["-DOWN"], params=T(N=2), thorough=T(N=3), about="a store of owning elements"),
         T(h="ddv_copy", src="ddv.cpp", params=T(P=3, N=1), about="copy, move, swap, equality of stores"), T(h="ddv_copy", src="ddv.cpp", defs=["-DOWN"], params=T(P=2, N=1), thorough=T(P=3), about="the same with owning elements"), T(h="ddv_copy", src="ddv.cpp", defs=["-DBIT"], params=T(P=2, N=1), about="the same with bools"),
         step(MF, B=2, D=1, thorough=T(D=2), about="boolean blocks, any operation"), T(h="mtv_equal", src="mtv.cpp", defs=MF, params=T(B=2, D=2), about="equality with boolean blocks"),
         T(h="mtv_transfer", src="mtv.cpp", defs=MF, params=T(B=2, D=1), about="transfer of boolean blocks"),
         step(["-DSTDVEC"], B=2, D=2, thorough=T(B=3), about="blocks on std::vector, any operation"),
         T(h="mtv_swap", src="mtv.cpp", defs=MF, params=T(B=2, D=1), tiers=TH, about="swap of boolean blocks")],
 "V10": [T(h="mtv_many", src="mtv.cpp", params=T(BLOCKS=40, EXTRA=17), about="the default variant, block counts 40 to 56"), T(h="mtv_many", src="mtv.cpp", defs=MA, params=T(BLOCKS=40, EXTRA=9), about="AoS layout")] +
        [T(h="mtv_many", src="mtv.cpp", defs=["-DLU=" + v], params=T(BLOCKS=b, EXTRA=e), about="variant " + v) for v, b, e in
         [("none", 8, 4), ("lu4", 12, 5), ("lu8", 18, 9), ("lu32", 40, 33), ("sse2_x64", 10, 5), ("sse2_x64_lu4", 18, 9), ("sse2_x64_lu8", 24, 17), ("sse2_x64_lu16", 40, 33)]],
})

M6 = ["-DINT64"]
def mat(mask, defs=(), tiers=None, thorough=None, about="", **kw):
    names = [(1, "set"), (2, "empty"), (4, "range"), (8, "column"), (16, "row-empty"), (32, "resize"), (64, "copy"), (128, "array"), (256, "transpose"), (512, "whole")]
    d = T(h="mtm_step", src="mtm.cpp", defs=list(defs), params=T(OPS=mask, **kw), opt=[n for b, n in names if not mask & b], about=about)
    if tiers: d["tiers"] = tiers
    if thorough: d["thorough"] = thorough
    return d
CHECKS.update({
 "X01": [mat(31, RUNS=1, LEN=2, thorough=T(RUNS=2, LEN=1), about="a matrix of any number of rows with a run of elements anywhere; any kind of setting; any probe"),
         mat(32, RUNS=1, LEN=1, thorough=T(LEN=2), about="resizing to any size, with or without a value"),
         mat(384, RUNS=1, LEN=1, thorough=T(LEN=2), about="transposing, copying from an array"),
         mat(256, RUNS=1, LEN=2, C=3, thorough=T(RUNS=2), about="transposing"),
         mat(64, TWO=1, RUNS=0, RUNS2=1, LEN=2, about="copying from a matrix of any size"),
         mat(64, TWO=1, RUNS=1, LEN=1, KINDS=1, tiers=TH, about="the same into a matrix with elements"),
         mat(512, TWO=1, RUNS=1, about="assignment, copy, move, swap, clear, then a change"),
         mat(511, CONC=3, KINDS=4, RUNS=1, thorough=T(RUNS=2), about="with boolean elements, up to 3 rows"),
         mat(512, TWO=1, CONC=1, KINDS=4, RUNS=1, thorough=T(CONC=2), about="copies of boolean elements"),
         mat(31, M6, RUNS=1, LEN=1, about="64-bit integer elements, setting"), mat(511, M6, CONC=2, KINDS=3, RUNS=1, about="64-bit integer elements, any operation"),
         T(h="mtm_equal", src="mtm.cpp", params=T(), about="equality"), T(h="mtm_equal", src="mtm.cpp", params=T(CONC=2, KINDS=4, RUNS=1), about="equality with boolean elements"),
         T(h="mtm_make", src="mtm.cpp", params=T(KINDS=4), about="constructors")],
 "X02": [T(h="mtm_walk", src="mtm.cpp", params=T(RUNS=1, LEN=2), thorough=T(RUNS=2), about="any matrix with a run of elements, any sub-range"),
         T(h="mtm_walk", src="mtm.cpp", params=T(PAR=1, RUNS=1, LEN=1, KINDS=1), thorough=T(KINDS=3), about="two matrices in parallel"),
         T(h="mtm_walk", src="mtm.cpp", params=T(CONC=2, KINDS=4, RUNS=2, LEN=2), thorough=T(CONC=3), about="boolean elements, up to 3 rows"),
         T(h="mtm_walk", src="mtm.cpp", params=T(CONC=2, KINDS=4, RUNS=1, LEN=1, PAR=1), thorough=T(LEN=2), about="the same in parallel")],
 "X03": [T(h="col_walk", src="col.cpp", params=T(), thorough=T(N=4), about="two vectors, any range of positions and vectors; SoA"),
         T(h="col_walk", src="col.cpp", defs=MA, params=T(), thorough=T(N=4), about="the same; AoS"),
         T(h="col_walk", src="col.cpp", params=T(OWNERS=1, POST=1, AGAIN=1, N=2), about="from shared pointers, post-increment, iterated twice"),
         T(h="col_walk", src="col.cpp", params=T(V=3, N=2), thorough=T(N=3), about="three vectors"),
         T(h="col_refuse", src="col.cpp", params=T(), about="vectors of different lengths, ranges outside")],
})

for _cases in CHECKS.values():
    for _c in _cases:
        if _c["h"] in ("mtv_copy", "mtv_release"): _c.setdefault("opt", [x for x in STEP_OPT if x not in ("inside", "beyond")])
