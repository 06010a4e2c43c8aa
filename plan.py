"""What each property's check explores: runs of the specification per tier."""
import os
import re

PARALLEL = {"quick": 3, "thorough": 3}
ASSUMPTIONS = [
    "The grammar in spec/SparqlGrammar.tla is the SPARQL 1.1 grammar (transcribed from the Recommendation; LL(1)-ness checked by TLC).",
    "The projection harness/src/tree.rs reports every field of the syntax tree.",
]
GEN_INV = ["RoundTrip", "Balanced", "Out"]

# profile -> departures (quick, thorough)
GEN = {
    "C01": {"query": (4, 6), "subselect": (4, 6), "all_q": (3, 4)},
    "C02": {"prologue_q": (6, 11), "prologue_u": (5, 9), "pro_terms": (4, 5), "pro_update": (4, 5)},
    "C03": {"pattern": (5, 6), "pat_select": (4, 6), "pat_exists": (4, 6), "pat_modify": (4, 6), "subselect": (4, 7)},
    "C04": {"triples": (5, 6), "template": (5, 7), "templatew": (5, 7), "quads": (4, 6)},
    "C05": {"path": (4, 5), "path_num": (4, 5), "path_later": (4, 5)},
    "C06": {"expr": (3, 4), "expr_bind": (3, 4), "expr_select": (3, 4), "expr_having": (3, 4), "expr_group": (3, 4), "expr_order": (3, 4),
            "expr_args": (4, 5), "expr_call": (4, 5)},
    "C07": {"builtin": (3, 4), "builtin_ex": (4, 4), "builtin_gr": (2, 3), "builtin_se": (3, 4), "builtin_in": (3, 4), "options": (5, 5), "functions": (3, 5)},
    "C08": {"modifiers": (5, 7), "mod_select": (5, 7), "mod_constr": (5, 7), "mod_desc": (5, 6), "mod_sub": (5, 7), "mod_all": (5, 6), "mod_expr": (2, 3)},
    "C09": {"values_end": (5, 8), "values_in": (5, 7), "values_sub": (5, 8), "values_row": (6, 8)},
    "C12": {"manage": (6, 8)},
    "C13": {"ins_data": (5, 7), "del_data": (5, 7), "with": (4, 6), "quads": (4, 6), "quads_term": (4, 6), "all_u": (4, 5)},
    "C14": {"sequence": (5, 7), "seq_all": (6, 9)},
    "C19": {"form_any": (2, 3), "form_ask": (3, 3), "form_con": (2, 3), "form_long": (2, 3), "form_short": (3, 4), "form_desc": (2, 3)},
}


def tla_seq(xs):
    return "<< " + ", ".join(xs) + " >>"


def gen_runs(prop, tier, seed):
    k = 0 if tier == "quick" else 1
    jobs = GEN.get(prop, {})
    if not jobs:
        return []
    shifts = [seed % 1000] if tier == "quick" else [seed % 1000 + i * 7 for i in range(3)]
    return [{"name": "gen%d" % s, "module": "Gen", "inv": GEN_INV,
             "consts": {"Shift": str(s), "Jobs": tla_seq('<<"%s", %d>>' % (p, d[k]) for p, d in jobs.items())}} for s in shifts] + [
            # all names alike: nothing may be merged or dropped because it is written twice
            {"name": "same", "module": "Gen", "inv": GEN_INV,
             "consts": {"Shift": str(-3 * (seed % 300 + 1)), "Jobs": tla_seq('<<"%s", %d>>' % (p, max(2, d[k] - 1)) for p, d in jobs.items())}}]


FORMS = ("form_any", "form_ask", "form_con", "form_long", "form_short", "form_desc")
# where the random derivations of a property start, and how big they may get (departures, chance in percent)
RAND = {
    "C01": [("query", 20, 40), ("all_q", 25, 35)], "C02": [("prologue_q", 20, 70), ("prologue_u", 20, 70), ("pro_terms", 20, 45), ("pro_update", 20, 45), ("all_q", 25, 35), ("all_u", 25, 35)],
    "C03": [("pattern", 20, 45), ("pat_modify", 20, 45), ("subselect", 20, 45)],
    "C04": [("triples", 20, 40), ("template", 20, 45), ("quads_term", 20, 40)],
    "C05": [("path", 20, 40), ("path_num", 25, 40), ("path_later", 25, 40)],
    "C06": [("expr", 20, 35), ("expr_group", 20, 35), ("expr_args", 20, 35), ("expr_select", 20, 35)],
    "C07": [("builtin", 20, 40), ("builtin_gr", 25, 40), ("builtin_in", 20, 35), ("functions", 20, 45)],
    "C08": [("modifiers", 15, 50), ("mod_select", 15, 50), ("mod_all", 20, 45), ("mod_sub", 15, 50), ("mod_expr", 25, 35)],
    "C09": [("values_end", 20, 45), ("values_in", 20, 45), ("values_row", 25, 45)],
    "C12": [("manage", 8, 60)], "C13": [("ins_data", 20, 40), ("del_data", 20, 40), ("with", 20, 40), ("quads_term", 25, 40)],
    "C14": [("sequence", 25, 50), ("all_u", 30, 40)],
    "C19": [(f, 20, 40) for f in FORMS],
}
# the profiles whose cycles (list lengths, nesting) are pumped, and the non-terminals concerned
PUMP = {
    "C01": [("query", "QryNTs"), ("subselect", "QryNTs")], "C02": [("prologue_q", '{"Decls"}'), ("prologue_u", '{"Decls"}')],
    "C03": [("pattern", "PatNTs"), ("pat_modify", "PatNTs")], "C04": [("triples", "TriNTs \\cup TplNTs"), ("template", "TplNTs")],
    "C05": [("path", "PathNTs"), ("path_later", "PathNTs")], "C06": [("expr", "ExprNTs"), ("expr_select", "ExprNTs")],
    "C07": [("builtin", "CallNTs \\cup {\"Primary\"}")], "C08": [("modifiers", "ModNTs"), ("mod_select", "ModNTs")],
    "C09": [("values_end", "ValNTs"), ("values_in", "ValNTs")],
    "C13": [("ins_data", "QuadNTs \\cup DataNTs"), ("del_data", "QuadNTs \\cup DataNTs")], "C14": [("all_u", "UpdNTs \\cup {\"Update\"}")],
    "C19": [(f, "QryNTs \\cup { \"TplList\", \"TplRest\", \"GroupRest\", \"OrderRest\", \"HavingRest\" }") for f in FORMS],
}


def rand_runs(prop, tier, seed):
    if prop not in RAND:
        return []
    n = 2500 if tier == "quick" else 40000
    return [{"name": name, "module": "Rand", "inv": ["Emit"],
             "consts": {"Shift": str(shift), "Seed": str(sd % 10000), "Jobs": tla_seq('<<"%s", %d, %d, %d>>' % (p, f, c, m) for p, f, c in RAND[prop])}}
            for name, shift, sd, m in (("rand", seed % 997 + 3, seed, n), ("randfew", -(seed % 331) - 4, seed + 5000, n // 2))]


def pump_runs(prop, tier, seed):
    if prop not in PUMP:
        return []
    counts = "{1, 2, 3, 4, 5, 7, 9, 13, 17, 33, 65, 130, 260, 520}" if tier == "quick" else "1..20 \\cup {33, 65, 130, 260, 520, 1030}"
    return [{"name": "pump", "module": "Pump", "inv": ["Emit"],
             "consts": {"Shift": str(seed % 991 + 5), "Counts": counts, "Mates": "2" if tier == "quick" else "6", "MateMax": "9" if tier == "quick" else "33", "Jobs": tla_seq('<<"%s", %s>>' % (p, s) for p, s in PUMP[prop])}}]


def huge_runs(prop, tier, seed):
    if prop not in PUMP:
        return []
    return [{"name": "huge", "module": "Huge", "spec": "HSpec", "inv": ["EmitU"],
             "consts": {"Shift": str(seed % 887 + 2), "Counts": "{}", "Mates": "0", "MateMax": "0", "Jobs": tla_seq('<<"%s", %s>>' % (p, s) for p, s in PUMP[prop])}}]


MUT = [("all_q", 2, 3), ("all_u", 2, 4), ("pattern", 2, 3), ("pat_select", 1, 2), ("subselect", 2, 2), ("triples", 2, 3), ("template", 2, 3), ("templatew", 1, 3), ("path", 2, 2), ("path_num", 1, 2),
       ("expr", 1, 2), ("expr_group", 1, 1), ("expr_order", 1, 1), ("expr_args", 1, 2), ("builtin", 1, 2), ("builtin_gr", 0, 1), ("modifiers", 2, 3), ("mod_desc", 2, 3), ("mod_all", 1, 2),
       ("values_end", 2, 3), ("values_in", 2, 3), ("values_row", 2, 3), ("manage", 2, 3), ("ins_data", 2, 3), ("del_data", 2, 3), ("with", 2, 3), ("quads", 2, 3), ("sequence", 2, 4),
       ("prologue_q", 2, 3)]


def mutate_runs(prop, tier, seed):
    if prop != "C16":
        return []
    k = 1 if tier == "quick" else 2
    out = []
    half = (len(MUT) + 1) // 2
    for i, part in enumerate((MUT[:half], MUT[half:])):
        out.append({"name": "damage%d" % i, "module": "Mutate", "spec": "MSpec", "inv": ["EmitM"],
                    "consts": {"Shift": str(seed % 983), "Kinds": "Toks", "Ops": '{"del", "dup", "swap", "cut", "ins", "rep", "bad", "join", "alike", "graft", "drop", "echo"}', "Stride": "7" if tier == "quick" else "3", "Damages": "1",
                               "Jobs": tla_seq('<<"%s", %d>>' % (m[0], m[k]) for m in part)}})
    return out


# places whose requests are compared with near misses: profile, departures
NEAR = [("all_q", 2), ("all_u", 2), ("pattern", 2), ("subselect", 1), ("triples", 2), ("template", 2), ("path", 2), ("expr", 1), ("expr_args", 1), ("builtin", 1), ("builtin_gr", 1), ("options", 3),
        ("modifiers", 2), ("values_end", 2), ("values_in", 2), ("values_row", 3), ("manage", 2), ("ins_data", 2), ("with", 2), ("quads", 2), ("sequence", 2), ("prologue_q", 2), ("query", 3), ("lit_expr", 3)]
TYPED = [("triples", 3, 4), ("template", 4, 4), ("values_in", 4, 5), ("values_row", 4, 5), ("quads_term", 4, 5), ("lit_expr", 3, 4)]


def lexeme_runs(prop, tier, seed):
    if prop == "C11":
        return [{"name": "typed", "module": "Mutate", "spec": "MSpec", "inv": ["EmitM"],
                 "consts": {"Shift": str(seed % 983), "Kinds": "{}", "Ops": '{"typed"}', "Stride": "1", "Damages": "1",
                            "Jobs": tla_seq('<<"%s", %d>>' % (m[0], m[1 if tier == "quick" else 2]) for m in TYPED)}}]
    if prop != "C10":
        return []
    k = 1 if tier == "quick" else 2
    return [{"name": "lexemes", "module": "Mutate", "spec": "MSpec", "inv": ["EmitM"],
             "consts": {"Shift": str(seed % 983), "Kinds": "{}", "Ops": '{"lex"}', "Stride": "1", "Damages": "1",
                        "Jobs": tla_seq('<<"%s", %d>>' % (m[0], min(m[k], 2 if tier == "quick" else 3)) for m in MUT)}}]


# base requests of the layout machine: profile, departures quick / thorough
LAY = [("all_q", 2, 2), ("all_u", 3, 4), ("query", 2, 3), ("prologue_q", 2, 2), ("prologue_u", 2, 2), ("pattern", 2, 3), ("subselect", 2, 2), ("triples", 2, 3), ("template", 2, 3), ("templatew", 2, 2), ("path", 2, 2),
       ("path_num", 1, 1), ("expr", 1, 2), ("expr_bind", 1, 1), ("expr_select", 1, 1), ("expr_having", 1, 1), ("expr_group", 1, 1), ("expr_order", 1, 1), ("expr_args", 2, 2), ("builtin", 1, 2), ("builtin_ex", 1, 1),
       ("builtin_gr", 1, 1), ("modifiers", 2, 3), ("mod_desc", 2, 2), ("mod_all", 1, 2), ("values_end", 2, 3), ("values_in", 2, 2), ("values_row", 2, 3), ("manage", 3, 3), ("ins_data", 2, 3), ("del_data", 2, 3), ("with", 2, 3),
       ("quads", 2, 3), ("sequence", 2, 3)]


def layout_runs(prop, tier, seed):
    if prop != "C15":
        return []
    k = 1 if tier == "quick" else 2
    n = 2
    return [{"name": "layout%d" % i, "module": "Layout", "spec": "LSpec", "inv": ["EmitL"],
             "consts": {"Shift": str(seed % 977), "Uniform": "1..13", "Single": "{1, 2, 3, 4, 7, 8, 10, 12, 13}", "Changes": "1",
                        "Jobs": tla_seq('<<"%s", %d>>' % (m[0], m[k]) for m in LAY[i::n])}} for i in range(n)]


# random large requests for the layout and damage machines: profile, departures, chance
WIDE = [("all_q", 25, 35), ("all_u", 30, 35), ("pattern", 20, 45), ("triples", 20, 40), ("template", 20, 40), ("path_num", 20, 40), ("expr", 20, 35), ("builtin_gr", 20, 35), ("mod_all", 15, 45),
        ("values_row", 20, 45), ("subselect", 20, 45), ("with", 20, 40), ("quads_term", 20, 40), ("sequence", 25, 50)]


def form_runs(prop, tier, seed):
    if prop != "C19":
        return []
    q = tier == "quick"
    jobs = [("all_q", 2, 2), ("query", 2, 3), ("prologue_q", 2, 3), ("modifiers", 1, 2), ("mod_constr", 2, 3), ("mod_desc", 2, 3), ("template", 1, 2), ("values_end", 2, 3)]
    return [{"name": "forms", "module": "Forms", "spec": "FSpec", "inv": ["Union", "EmitF"],
             "consts": {"Shift": str(seed % 907), "Offered": '{"S", "A", "C", "D", "B", "T"}', "DOps": '{"del", "dup", "swap", "cut", "ins", "rep", "bad", "alike", "graft", "drop", "echo"}', "DKinds": "Toks",
                        "DStride": "41" if q else "9", "Jobs": tla_seq('<<"%s", %d>>' % (m[0], m[1 if q else 2]) for m in jobs)}},
            {"name": "layout", "module": "Layout", "spec": "LSpec", "inv": ["EmitL"],
             "consts": {"Shift": str(seed % 977), "Uniform": "1..13", "Single": "{1, 2, 3, 7, 8, 10, 13}", "Changes": "1", "Jobs": tla_seq('<<"%s", %d>>' % (f, 1 if q else 2) for f in FORMS)}},
            {"name": "randlayout", "module": "RandX", "inv": ["EmitX"],
             "consts": {"Shift": str(seed % 971), "Seed": str(seed % 10000), "Style": '"layout"', "Jobs": tla_seq('<<"%s", 20, 40, %d>>' % (f, 1500 if q else 20000) for f in FORMS)}},
            {"name": "randdamage", "module": "RandX", "inv": ["EmitX"],
             "consts": {"Shift": str(seed % 971 + 1), "Seed": str((seed + 77) % 10000), "Style": '"damage"', "Jobs": tla_seq('<<"%s", 20, 40, %d>>' % (f, 1500 if q else 20000) for f in FORMS)}}]


def pair_runs(prop, tier, seed):
    if prop != "C20":
        return []
    q = tier == "quick"
    k = 1 if q else 2
    near = [(p, d) for p, d in NEAR]
    cross = sorted({(p, min(d[0 if q else 1], 3 if q else 4)) for jobs in GEN.values() for p, d in jobs.items() if p not in FORMS})
    return [{"name": "pairs%d" % i, "module": "Pairs", "spec": "QSpec", "inv": ["EmitQ"],
             "consts": {"Shift": str(seed % 911), "Kinds": "Toks", "Ops": '{"del", "dup", "swap", "ins", "rep", "join", "lex", "same", "typed"}', "Stride": "37" if q else "3",
                        "Jobs": tla_seq('<<"%s", %d>>' % (m[0], min(m[k], 2)) for m in MUT[i::2])}} for i in (0, 1)] + [
            # tokens that differ a little, kin keywords, names and stretches exchanged
            {"name": "near%d" % i, "module": "Pairs", "spec": "QSpec", "inv": ["EmitQ"],
             "consts": {"Shift": str((seed * 7 + i) % 911), "Kinds": "Toks", "Ops": '{"near", "perm", "sibs"}', "Stride": "1",
                        "Jobs": tla_seq('<<"%s", %d>>' % (p, d if q else min(d + 1, 4)) for p, d in near[i::2])}} for i in (0, 1)] + [
            # the derivations of a profile, each compared with every other; few names, so that they differ in structure
            {"name": "cross", "module": "Gen", "inv": GEN_INV, "cross": True,
             "consts": {"Shift": str(-3 * (seed % 300 + 1)), "Jobs": tla_seq('<<"%s", %d>>' % j for j in cross)}},
            # near misses of requests with few names, each compared with every other of its profile
            {"name": "crossnear", "module": "Pairs", "spec": "QSpec", "inv": ["EmitN"], "cross": True,
             "consts": {"Shift": str(-3 * (seed % 300) - 1), "Kinds": "Toks", "Ops": '{"near", "lex", "perm", "blocks", "del"}', "Stride": "1",
                        "Jobs": tla_seq('<<"%s", %d>>' % (p, d if q else min(d + 1, 4)) for p, d in NEAR)}},
            {"name": "randpairs", "module": "PairsR", "inv": ["EmitR"],
             "consts": {"Shift": str(seed % 971), "Seed": str((seed + 31) % 10000), "Style": '"damage"', "Jobs": tla_seq('<<"%s", %d, %d, %d>>' % (p, f, c, 600 if q else 12000) for p, f, c in WIDE)}}]


def randx_runs(prop, tier, seed):
    if prop not in ("C15", "C16"):
        return []
    n = 1500 if tier == "quick" else 40000
    return [{"name": "randx", "module": "RandX", "inv": ["EmitX"],
             "consts": {"Shift": str(seed % 971), "Seed": str(seed % 10000), "Style": '"layout"' if prop == "C15" else '"damage"',
                        "Jobs": tla_seq('<<"%s", %d, %d, %d>>' % (p, f, c, n) for p, f, c in WIDE)}}]


# profiles whose requests are rewritten so that two of their names coincide: profile, departures
SAME = {
    "C01": [("query", 3, 4), ("subselect", 3, 4), ("all_q", 2, 3)], "C02": [("prologue_q", 4, 6), ("prologue_u", 4, 6), ("pro_terms", 4, 5), ("pro_update", 3, 4)],
    "C03": [("pattern", 4, 5), ("pat_modify", 3, 4), ("subselect", 3, 4)], "C04": [("triples", 4, 5), ("template", 4, 5), ("quads", 3, 4)], "C05": [("path", 3, 4), ("path_later", 3, 4)],
    "C06": [("expr", 2, 3), ("expr_args", 3, 4), ("expr_group", 2, 3), ("lit_expr", 3, 4)], "C07": [("builtin", 3, 3), ("builtin_gr", 2, 2), ("builtin_in", 2, 3)], "C08": [("modifiers", 4, 5), ("mod_select", 4, 5), ("mod_sub", 3, 4)],
    "C09": [("values_end", 5, 6), ("values_in", 4, 5), ("values_row", 5, 6), ("values_sub", 5, 6)], "C12": [("manage", 6, 8)],
    "C13": [("ins_data", 5, 6), ("del_data", 5, 6), ("with", 4, 5), ("quads_term", 3, 4)], "C14": [("sequence", 5, 6), ("seq_all", 5, 6), ("pro_update", 3, 4)],
    "C19": [("form_any", 2, 2), ("form_long", 2, 2), ("form_short", 3, 3), ("form_desc", 2, 2)],
}


def same_runs(prop, tier, seed):
    if prop not in SAME:
        return []
    q = tier == "quick"
    one = {"name": "coincide", "module": "Mutate", "spec": "MSpec", "inv": ["EmitM"],
           "consts": {"Shift": str(seed % 919), "Kinds": "{}", "Ops": '{"same", "few"}', "Stride": "5" if q else "4", "Damages": "1",
                      "Jobs": tla_seq('<<"%s", %d>>' % (m[0], m[1 if q else 2]) for m in SAME[prop])}}
    two = {"name": "coincide2", "module": "Mutate", "spec": "MSpec", "inv": ["EmitM"],
           "consts": {"Shift": str(seed % 919 + 1), "Kinds": "{}", "Ops": '{"same"}', "Stride": "1", "Damages": "2",
                      "Jobs": tla_seq('<<"%s", %d>>' % (m[0], m[1] - 1) for m in SAME[prop])}}
    return [one] if q else [one, two]


def cps(s):
    return "<< " + ", ".join(str(ord(c)) for c in s) + " >>"


def ctxs(s):
    return "{ " + ", ".join('"%s"' % c for c in s.split()) + " }"


# first text, alphabet, greatest length quick / thorough, contexts
IRI_CTX = "named usingn using with into copyto copyfrom qgraph service describe call iof load"
VAR_CTX = "exprvar bound orderby groupas onevar fullvar qgraph service describe member"
LEX = {
    "C10": [("", "?$a0_-.:", 3, 4, VAR_CTX), ("", "a:.0-%\\", 3, 4, IRI_CTX + " member inner rowcell"), ("<", "a><\" \\#/%:", 3, 4, IRI_CTX + " rowcell inner"), ("_:", "a0.-_:", 3, 4, "member inner"),
            ("", "?$a0_-.:\u00b7\u0300", 4, 5, "object select asvar subject"), ("", "?$a0_-.\u00d7", 3, 4, "objectc objectd graph graphb verb tobject lastobj"),
            ("", "a:.0-_%\\", 5, 6, "object prefix"), ("", "a:.0-_%\\", 4, 5, "verb datatype graph from clear subject cell objectd path lastobj load tobject objectc graphb"),
            (":", "a:.0-_%\\", 6, 7, "object"), (":a", "aF%\\.:~!$&'()*+;=/?#@-", 4, 5, "object"), ("a", "a.:-0\u00b7\u0301", 6, 7, "prefix"),
            ("", "\u00e9\u00b7\u0300\u200c\u00d7:a\U00010000\u203f", 4, 5, "object prefix"),
            ("_:", "a0.-_:\u00b7\u00e9", 6, 7, "object"), ("_", "a0.-_:", 5, 6, "subject tobject objectd graph cell lastobj objectc"),
            ("<", "a><\"{}|^`\\ #/\u20ac%:", 4, 5, "object verb datatype from prefixi base objectc"), ("<", "a> #.,;?&=()'*\u0001\u00a0", 4, 5, "object"), ("<", "a> .,?&()'*\u0001\u00a0", 4, 5, "clear load")],
    "C11": [("", "05.eE+-", 3, 4, "member inner rowcell"), ("\"", "a\"'\\n", 3, 4, "member inner rowcell"), ("", "05.eE+-", 5, 7, "object"), ("", "19.e+-", 4, 5, "subject cell objectd tobject lastobj objectc"), ("0", "07.e-", 6, 8, "object"), ("-", "30.E+", 6, 7, "object cell"),
            ("\"", "a\"'\\n\u00e9{#", 5, 6, "object"), ("'", "a\"'\\t}? ", 5, 6, "object"), ("\"", "\"\\rbf'x.", 4, 6, "subject cell objectd tobject objectc lastobj"),
            ("@", "aZ0-._", 6, 7, "langtag")],
}
# each keyword as a name's prefix, local part, variable and label, in each place where such a name may stand
KEYWORDS = re.findall(r"[A-Z][A-Z0-9_]*", " ".join(re.findall(r'"([A-Z][A-Z0-9_]*)"', open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "spec", "SparqlGrammar.tla")).read())))
KEYWORDS = sorted({k.lower() for k in KEYWORDS} | {"a"})
ALL_IRI = "object select asvar subject objectc objectd graph graphb verb tobject lastobj prefix datatype from clear cell path load member inner rowcell " + "named usingn using with into copyto copyfrom qgraph service describe call iof"
# first text, pieces, greatest number of pieces quick / thorough, contexts
PERCENT = sorted({c for n in range(256) for h in ("%02X" % n,) for c in ("%" + h, "%" + h.lower(), "%" + h[0] + h[1].lower(), "%" + h[0].lower() + h[1])} | {"%C3%A9", "%e2%82%ac", "%25%32%35", "%2e%2E"})
WORDS = {
    "C10": [("", "true: : _ a . - not: in: %41 \\~", 4, 5, "object subject graph"), ("?", "select as ? $ a 9 - . \u00b7 %s %s" % ("long_n4me" * 7, "L\u00f6ng" * 90), 3, 4, "object asvar select"), ("<", "http://e.org/ > < \\u0041 %20 # ?q=1&r '", 4, 5, "object from"),
            ("", "prefix base a : _: - . x", 3, 4, "prefix object graphb clear"), ("_:", "a . - .. _ 0 : \u203f \u00d7 ab.c", 4, 5, "object tobject subject"),
            ("", "A%s : _" % ("bC.d-e" * 300), 3, 3, "object prefix"),
            ("", " ".join([k + ":a" for k in KEYWORDS] + [k.upper() + ":" for k in KEYWORDS] + [k + ":" for k in KEYWORDS] + [k[0].upper() + k[1:] + ":1" for k in KEYWORDS]), 1, 1, ALL_IRI),
            ("", " ".join(c + k for k in KEYWORDS for c in ("?", "$", "_:", ":", "x:")), 1, 1, ALL_IRI + " exprvar bound orderby groupas onevar fullvar"),
            ("", " ".join(k + c for k in KEYWORDS for c in ("-b:c", ".b:c", "9:c", "_:c", "s:c")), 1, 1, ALL_IRI),
            (":a", " ".join(PERCENT), 1, 1, "object verb graph datatype clear"), ("p.q:", " ".join(PERCENT), 1, 1, "object prefixi"), (":", " ".join(p + "b" for p in PERCENT), 1, 1, "object"),
            ("<a", " ".join(p + ">" for p in PERCENT), 1, 1, "object from prefixi base"), ("<http://e/", " ".join(p + "b>" for p in PERCENT), 1, 1, "object clear")],
    "C11": [("", "2147483647 2147483648 4294967296 9223372036854775807 9223372036854775808 e E- + - . 00 1", 4, 5, "object cell"), ("-", "9223372036854775808 2147483649 e E+ . 0 128 -", 4, 5, "object subject tobject"),
            ("1", "e+ E- 127 128 255 256 32767 32768 65536 2147483648 9223372036854775807 .0", 3, 4, "object"), ("0.", "1 00000 123456789 e308 e-324 e309 999999999", 3, 4, "object cell"),
            ("\"", "\" \\\\ \\\" \\n ' '' \\t}#{ %s @" % ("0long text. " * 30).replace(" ", "\u00a0"), 4, 5, "object"), ("'", "' \\' \\\\ \"\" \\r \U0001f600 <b>", 4, 5, "object cell"),
            ("@", "en - de AT 1 X a0 _", 4, 6, "langtag"), ("@en", "- abcdefghi 1234567890 X a 2", 4, 5, "langtag"), ("@abcdefghij", "klmnopqrs -de-Latn-1996 - 1", 4, 4, "langtag"), ("@%s" % ("a" * 500), "- a 1", 3, 4, "langtag")],
}
FRAMES = {
    "C10": [("<a", ">", IRI_CTX), (":a", "b", IRI_CTX), ("?a", "b", VAR_CTX), ("_:a", "b", "member inner"), ("e", ":a", "named usingn copyfrom"),
            ("?", "", "object select"), ("?a", "", "object asvar"), ("$", "a", "object"), (":", "", "object verb"), (":a", "", "object datatype"), (":a", "a", "object graph"), (":", "a", "clear"), ("a", ":", "prefix object"),
            ("a", "a:", "prefix"), ("", ":", "prefix"), ("", ":a", "object"), ("_:", "", "object"), ("_:a", "a", "object"), ("_:a", "", "subject"), ("<", ">", "object prefixi"), ("<a", "b>", "from"),
            (":\\", "", "object"), (":a\\", "b", "object"), (":%", "0", "object"), (":%0", "", "object"), (":a.", "", "object"), ("a.", ":a", "object"), ("_:a.", "", "object")],
    "C11": [("\"", "\"", "object"), ("'", "'", "object cell"), ("\"a", "b\"", "subject"), ("'\\", "'", "object"), ("\"\\", "\"", "object"), ("\"a\\", "b\"", "object"), ("@", "", "langtag"), ("@a", "", "langtag"), ("@a-", "", "langtag"),
            ("1e", "", "object"), ("1", "", "object"), ("", "1", "object"), ("1.", "", "object"), ("1e+", "", "object"), ("-", "", "object"), ("\"a\"", "", "object")],
}
# places in a token where every code point is tried: kind, automaton, text before, its states before and after, text after, class, context
EVERY = {
    "C10": [("run", "PN", ":a", "l", "l", "", "LN", "object"), ("each", "PN", ":", "c", "l", "", "LN", "object"), ("run", "PN", "a", "p", "p", ":", "NS", "prefix"), ("each", "PN", "", "0", "p", ":", "NS", "object"),
            ("run", "VAR", "?a", "2", "2", "", "VAR", "select"), ("each", "VAR", "$", "1", "2", "", "VAR", "object"), ("run", "BN", "_:a", "3", "3", "", "BN", "object"), ("each", "BN", "_:", "2", "3", "", "BN", "object"),
            ("run", "IRI", "<", "1", "1", ">", "IRI", "object"),
            ("pairs", "PN", ":a", "l", "l", "", "LN", "object"), ("pairs", "PN", ":", "c", "l", "", "LN", "object"), ("pairs", "PN", "a", "p", "p", ":a", "LN", "object"), ("pairs", "VAR", "?", "1", "2", "", "VAR", "object"), ("pairs", "VAR", "$a", "2", "2", "", "VAR", "object"),
            ("pairs", "BN", "_:", "2", "3", "", "BN", "object"), ("pairs", "BN", "_:a", "3", "3", "", "BN", "object"), ("pairs", "IRI", "<", "1", "1", ">", "IRI", "object"), ("pairs", "IRI", "<a:", "1", "1", "b>", "IRI", "object"), ("pairs", "IRI", "<a:", "1", "1", ">", "IRI", "object"), ("pairs", "PN", "a:b", "l", "l", "c", "LN", "object")],
    "C11": [("run", "STR", "\"", "d", "d", "\"", "STR", "object"), ("run", "STR", "'", "s", "s", "'", "STR", "cell"),
            ("pairs", "STR", "\"", "d", "d", "\"", "STR", "object"), ("pairs", "STR", "'", "s", "s", "'", "STR", "object"), ("pairs", "STR", "\"a", "d", "d", "b\"", "STR", "object"), ("pairs", "STR", "'a", "s", "s", "b'", "STR", "object")],
    "C15": [("note", "VAR", "?a", "2", "2", "", "VAR", "object"), ("note", "IRI", "<a>", "2", "2", "", "IRI", "clear"), ("notes", "VAR", "?a", "2", "2", "", "VAR", "object"), ("gaps", "IRI", "<a>", "2", "2", "", "IRI", "object"), ("gaps", "PN", ":a", "l", "l", "", "LN", "object")],
}
EDGES = (0x24, 0x2d, 0x30, 0x3a, 0x41, 0x5b, 0x5f, 0x61, 0x7b, 0x80, 0xb7, 0xc0, 0xd7, 0xd8, 0xf7, 0xf8, 0x300, 0x370, 0x37e, 0x37f, 0x2000, 0x200c, 0x200e, 0x203f, 0x2041, 0x2070, 0x2190, 0x2c00, 0x2ff0, 0x3001, 0xd7ff,
         0xe000, 0xf900, 0xfdd0, 0xfdf0, 0xfffe, 0x10000, 0x1f600, 0xe0000, 0xf0000, 0x10fffd)


def points(tier, seed):
    if tier == "quick":
        s = set(range(1, 0x180)) | {c + d for c in EDGES for d in (-2, -1, 0, 1, 2)} | set(range(0x180 + seed % 97, 0x3100, 97)) | set(range(0x3100 + seed % 1009, 0x110000, 3001))
    else:
        s = set(range(1, 0x3200)) | {c + d for c in EDGES for d in range(-8, 9)} | set(range(0x3200 + seed % 61, 0x110000, 61))
    return sorted(c for c in s if 0 < c < 0x110000 and not 0xd800 <= c < 0xe000)


def lex_runs(prop, tier, seed):
    if prop not in LEX:
        return []
    k = 2 if tier == "quick" else 3
    jobs = ["<<%s, %s, %d, %s>>" % (cps(l[0]), tla_seq(map(cps, w)), l[k] - (len(l[0]) if w is l[1] else 0), ctxs(l[4])) for l, w in [(l, l[1]) for l in LEX[prop]] + [(l, l[1].split(" ")) for l in WORDS[prop]]]
    frames = ["<<%s, %s, %s>>" % (cps(f[0]), cps(f[1]), ctxs(f[2])) for f in FRAMES[prop]]
    pts = "{ " + ", ".join(map(str, points(tier, seed))) + " }"
    inv = ["Exclusive", "EmitLex"]
    a = {"name": "lex", "module": "Lex", "inv": inv + ["Incremental"], "consts": {"Shift": str(seed % 967), "Jobs": tla_seq(jobs), "Frames": "<< >>", "Points": "{}"}}
    b = {"name": "codepoints", "module": "Lex", "inv": inv, "consts": {"Shift": str(seed % 967), "Jobs": "<< >>", "Frames": tla_seq(frames), "Points": pts}}
    return [a, b]


def every_runs(prop, tier, seed):
    if prop not in EVERY:
        return []
    return [{"name": "every", "module": "Every", "inv": ["Placed", "EmitE"], "consts": {"Shift": "0", "Width": "512", "Skip": "1",
             "Frames": tla_seq('<<"%s", "%s", %s, "%s", "%s", %s, "%s", "%s">>' % (k, m, cps(b), at, to, cps(z), c, x) for k, m, b, at, to, z, c, x in EVERY[prop])}}]


# texts of no particular form
SMALL = [("all_q", 1, 2), ("all_u", 1, 2), ("triples", 1, 1), ("path", 1, 1), ("expr", 0, 1), ("builtin", 0, 1), ("values_end", 1, 1), ("mod_all", 0, 1), ("manage", 1, 1), ("with", 1, 1), ("form_long", 1, 1), ("form_short", 1, 1)]
DEEP = [("all_q", "NTs"), ("all_u", "NTs")]


def text_runs(prop, tier, seed):
    if prop != "C17":
        return []
    q = tier == "quick"
    wide = tla_seq('<<"%s", %d, %d, %d>>' % (p, f, c, 900 if q else 12000) for p, f, c in WIDE)
    return [{"name": "edits", "module": "TextG", "spec": "TSpec", "inv": ["EmitT"], "record": True,
             "consts": {"Shift": str(seed % 953), "Variants": "3" if q else "8", "Jobs": tla_seq('<<"%s", %d>>' % (p, a if q else b) for p, a, b in SMALL)}},
            {"name": "words", "module": "TextL", "spec": "TSpec", "inv": ["EmitT"], "record": True,
             "consts": {"Shift": str(seed % 929), "Strangers": "3" if q else "24", "Jobs": tla_seq('<<"%s", %d>>' % (p, a if q else b) for p, a, b in SMALL)}},
            {"name": "randedits", "module": "TextR", "inv": ["EmitT"], "record": True, "consts": {"Shift": str(seed % 947), "Seed": str(seed % 10000), "Style": '"edit"', "Jobs": wide}},
            {"name": "soup", "module": "TextR", "inv": ["EmitT"], "record": True, "consts": {"Shift": str(seed % 941), "Seed": str(seed % 10000), "Style": '"soup"', "Jobs": wide}},
            {"name": "deep", "module": "TextP", "inv": ["EmitT"], "record": True,
             "consts": {"Shift": str(seed % 937), "Counts": "{9, 60}" if q else "{9, 30, 60, 150, 300}", "Mates": "1" if q else "4", "MateMax": "60", "Jobs": tla_seq('<<"%s", %s>>' % d for d in DEEP)}}]


def helper_runs(prop, tier, seed):
    if prop != "C18":
        return []
    return [{"name": "helpers", "module": "Helpers", "inv": ["Reflexive", "OnlyFirstTagged", "ThereAndBack", "EmitH"], "consts": {"Wide": "FALSE" if tier == "quick" else "TRUE"}}]


def runs(prop, tier, seed):
    return helper_runs(prop, tier, seed) + pair_runs(prop, tier, seed) + form_runs(prop, tier, seed) + text_runs(prop, tier, seed) + lex_runs(prop, tier, seed) + every_runs(prop, tier, seed) + randx_runs(prop, tier, seed) + layout_runs(prop, tier, seed) + lexeme_runs(prop, tier, seed) + mutate_runs(prop, tier, seed) + gen_runs(prop, tier, seed) + same_runs(prop, tier, seed) + rand_runs(prop, tier, seed) + pump_runs(prop, tier, seed) + huge_runs(prop, tier, seed)


REPLAY = "explicit TLA+ specification, behaviours explored by TLC and replayed into the real parser: "
DERIVE = ("machines Gen (all derivations with few departures from the defaults), Mutate (coinciding names), Rand (large random derivations), Pump (every cycle of the grammar repeated) and Huge (lists of 66000 elements); "
          "outcome, tree and remainder compared with those of the specification")
TECH = {p: REPLAY + DERIVE for p in GEN}
NOTE = {p: "Every derivation of this part of the grammar with at most k departures from the default choices (k per profile in plan.py), in each context where it may stand; "
           "the same with names that coincide, and with any two names of a sentence made equal; beyond that bound, random derivations of up to 25 departures, every recursion of the grammar repeated up to 520 (thorough 1030) times, "
           "alone and in turn with others, and every list with 66000 elements. Not an exhaustive proof beyond k." for p in GEN}
TECH["C10"] = TECH["C11"] = REPLAY + "machines Lex (token automata run over every text of a small alphabet and every frame with every code point in its hole) and Every (all 1.1 million code points, block by block, in each place of a token)"
NOTE["C10"] = ("Every text up to 4-7 characters over alphabets covering each character class boundary, in 41 contexts; texts of up to 5 words (keywords, escapes, names of hundreds of characters); frames with ~3300 (thorough ~31000) code points, and every code point a token may hold at each of its places (accepting side only); plus every name of the token pools in every position of "
               "generated requests. Quiet about comments inside candidates and code point escapes; nothing is claimed about the longest-match of text beyond those lengths.")
NOTE["C11"] = ("Every text up to 4-8 characters over alphabets of quotes, escapes, digits, signs, dots and exponents in 10 contexts, texts of up to 6 words at the limits of 8 to 64 bit numbers, frames with ~3300 (thorough ~31000) code points, every code point a string may hold, and typed literals of every XSD type in every position. "
               "Integers outside the signed 64-bit range, long strings, line breaks inside strings and code point escapes are outside the property.")
TECH["C15"] = REPLAY + "machines Layout (uniform layouts and single departures at every gap and keyword of generated requests) and RandX (random layouts of large random requests) and Every (comments of every code point)"
NOTE["C15"] = ("All requests with at most k departures (k per profile in plan.py) in 13 uniform layouts, 3 keyword cases and every single departure; random mixed layouts of large requests. "
               "Separators: 13 kinds of white space and comments, with comments of 500 characters and non-ASCII ones. The tight layout leaves out white space only where the specification is sure that the tokens stay apart.")
TECH["C16"] = REPLAY + "machines Mutate and RandX damage generated token sequences; the LL(1) accepting machine of the specification gives the longest well-formed prefix, its tree and the remainder"
NOTE["C16"] = ("All one-token deletions, doublings, exchanges, truncations, joinings of two tokens and keywords with look-alike letters, and a stride of the insertions and replacements (also by words that are no token), of all requests with at most k departures; one to three random damages of large random requests. "
               "Token sequences further from well-formed requests are reached only through C17's arbitrary texts, where the outcome itself is not predicted.")
TECH["C17"] = ("explicit TLA+ specification: texts made by the machines TextG, TextL, TextR and TextP (character edits, odd words, token soup, deep nesting whole, cut off and spoilt) are called in recorded histories, "
               "and TLC validates the recorded traces against the machine Session")
NOTE["C17"] = ("About 70000 texts (thorough 400000) in histories of 16 texts: each parsed (the place a refusal reports must lie in the text), parsed again later from two concurrent threads, its consumed part parsed alone, and every text 60 times more in one thread, by the whole-request parsers and one of a part. Every recursion of the grammar nested 60 (thorough 300) deep; "
               "no return within 20 s counts as not returning. Needs a stack large enough for the nesting (1 GB here): the recursive descent itself is not bounded.")
TECH["C18"] = REPLAY + "machine Helpers (complete tables of the helper functions over finite argument domains)"
TECH["C19"] = REPLAY + ("machine Forms (queries, their parts and damaged ones offered to every form's parser, the accepting machine started at that form's non-terminal), "
                         "and machines Gen, Rand, Pump, Huge, Layout and Mutate started at each form")
NOTE["C19"] = ("Every query of eight parts of the grammar with at most 2 departures, from its beginning, from its form's keyword or from behind it, whole or with one damage, offered to six parsers; "
               "each form's own derivations with at most 2-3 departures, random ones of up to 20, in random layouts and with random damages. White space in front of a text is outside the property.")
TECH["C20"] = REPLAY + "machines Pairs and PairsR (pairs of accepted requests one rewrite or one layout apart; and all pairs within groups of behaviours; equal exactly when the specification's trees are)"
NOTE["C20"] = ("Pairs of a request with at most 1-3 departures and a well-formed one a token away (any lexeme of the pool, near misses such as another letter case, numerals of the same value, kin keywords; a stride of the insertions and replacements); groups of 12000 derivations and near misses with few names, each compared with every other of its group; pairs of large random requests.")
NOTE["C18"] = "Complete over the argument domains of spec/Helpers.tla (string arguments, tags, symbols and texts up to 2, thorough 3, letters); the text of literals outside them is assumed not to matter."


def covered(prop):
    return prop in TECH
