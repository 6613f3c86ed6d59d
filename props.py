"""Property registry: contracts and bounded checks per property."""
import importlib


class P:
    def __init__(self, title, contracts, rt, only=None, level="proof", trusted=(), assumptions=(), technique="", note="", explanation=""):
        self.title, self.contracts, self.rt, self.only, self.level = title, contracts, rt, only, level
        self.trusted, self.assumptions, self.technique, self.note, self.explanation = trusted, assumptions, technique, note, explanation
        if not contracts:  # nothing of this property is proved: say so
            self.level = "exploration"
            self.technique = technique or "bounded run-time contract checks on the real code (stand-in for the contracts; nothing proved)"
            self.note = note or "Bounded only: seeded and enumerated inputs against independent oracles; no obligation is discharged for this property. See DESIGN.md."
        else:
            self.technique = technique or "contract-based deductive verification (pyvc -> SMT) of the functions under contract, with bounded run-time contract checks for the rest"
            self.note = note or "Proved: every obligation of the functions listed in the evidence, for all inputs. Bounded: the end-to-end checks. Trusted base in the evidence and DESIGN.md."

    def select(self, c):
        return self.only is None or any(c.name == o or c.name.startswith(o + "[") or c.name == "lemma:" + o or c.qual == o or (o.endswith("*") and c.name.startswith(o[:-1])) for o in self.only)

    def runtime_checks(self):
        out = []
        for m in self.rt:
            out += importlib.import_module("rt." + m).CHECKS
        return out


PROPS = {}
NA = {}
PROPS["C01"] = P("choice index", ["c_choice"], ["c01"])
PROPS["C02"] = P("float encoding", ["c_floats"], ["c02"],
                 only=["clamp", "clamper_client", "reverse64", "reverse_bits", "reverse_bits_client", "decode_exponent", "encode_exponent", "exponent_client", "mantissa_client", "is_simple", "lex_to_float", "float_to_lex",
                       "roundtrip_client", "lemma_integers_ordered", "integer_part_client"])
PROPS["C03"] = P("interval sets", ["c_intervals"], ["c03"])
PROPS["C16"] = P("float helpers", ["c_floats"], ["c16"],
                 only=["is_negative", "sign_aware_lte", "float_to_int", "int_to_float", "clamp", "next_up*", "next_down*", "float_of", "count_between_floats", "lemma_rank_cmp"])
PROPS["C21"] = P("containers", ["c_junk"], ["c21"])
PROPS["C05"] = P("storage", ["c_db"], ["c05"])
PROPS["C07"] = P("draws permitted", ["c_providers"], ["c07"])
PROPS["C08"] = P("collections", ["c_compose", "c_utils"], ["c08"], only=["many*", "ListStrategy*", "UniqueListStrategy*", "UniqueSampledListStrategy*", "TupleStrategy*"])
PROPS["C10"] = P("weighted choices", ["c_utils"], ["c10"], only=["Sampler*"])
PROPS["C11"] = P("caches", [], ["c11"])
PROPS["C04"] = P("character queries", [], ["c04"])
PROPS["C09"] = P("filters", ["c_filters"], ["c09"])
PROPS["C19"] = P("dates and times", ["c_dates"], ["c19"])
PROPS["C15"] = P("numbers", ["c_numbers"], ["c15"])
PROPS["C12"] = P("shrinking", ["c_shrink"], ["c12"])
PROPS["C13"] = P("tree of tried choices", ["c_tree"], ["c13"])
PROPS["C14"] = P("databases", ["c_databases"], ["c14"])
PROPS["C17"] = P("runs", [], ["c17"])
PROPS["C22"] = P("random state", ["c_random"], ["c22"])
PROPS["C24"] = P("automata", [], ["c24"])
PROPS["C26"] = P("targeting", ["c_target"], ["c26"])
PROPS["C06"] = P("replay", [], ["c06"])
PROPS["C25"] = P("arrays", [], ["c25"])
PROPS["C20"] = P("text and patterns", [], ["c20"])
PROPS["C23"] = P("composition", ["c_compose"], ["c23"], only=["FilteredStrategy*", "SampledFromStrategy*", "MappedStrategy*", "OneOfStrategy*", "FlatMapStrategy*", "LimitedStrategy*", "SharedStrategy*", "PermutationStrategy*", "JustStrategy*"])
PROPS["C18"] = P("state machines", ["c_stateful"], ["c18"])
