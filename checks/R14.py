"""R14: every AST construct is dispatched, visited in all its parts and copied completely by every pass that meets it."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from harness import main
from visit import *

TECH = ("must-visit dataflow over the control flow graph of each compiler pass with the dispatch pinned to one construct (LLVM IR + debug types), "
        "exhaustiveness of the dispatch tables against the kinds produced upstream, completeness of record copies")

# construct -> the record(s) behind its value pointer
KINDS = {
    "AST_EXPR_BINARY": ('ast_binary_expr_t',),
    "AST_EXPR_UNARY": ('ast_unary_expr_t',),
    "AST_EXPR_TERNARY": ('ast_ternary_expr_t',),
    "AST_EXPR_AS": ('ast_as_expr_t',),
    "AST_EXPR_IS": ('ast_is_expr_t',),
    "AST_EXPR_TAGGED_UNION_NEW": ('ast_tagged_union_t',),
    "AST_EXPR_TAGGED_UNION_ELEMENT": ('ast_tagged_union_t',),
    "AST_MACRO_EXPR_SIZEOF": ('ast_macro_sizeof_expr_t',),
    "AST_MACRO_EXPR_REFLECT_HASH": ('ast_macro_reflect_hash_expr_t',),
    "AST_MACRO_EXPR_TYPE_EQ": ('ast_macro_type_eq_expr_t',),
    "AST_MACRO_EXPR_DEFAULT": ('ast_macro_default_expr_t',),
    "AST_MACRO_ASYNC": ('ast_macro_async_t',),
    "AST_EXPR_NEW": ('ast_new_expr_t',),
    "AST_EXPR_MAP_ACCESS": ('ast_map_access_t',),
    "AST_EXPR_VEC_ACCESS": ('ast_vec_access_t', 'ast_array_access_t'),
    "AST_EXPR_VEC_SLICE": ('ast_vec_slice_t',),
    "AST_EXPR_ARRAY_ACCESS": ('ast_array_access_t', 'ast_vec_access_t'),
    "AST_EXPR_TUPLE_ACCESS": ('ast_tuple_access_t',),
    "AST_EXPR_STRUCT_SELECT": ('ast_struct_select_t',),
    "AST_EXPR_VEC_NEW": ('ast_vec_new_t', 'ast_array_new_t'),
    "AST_EXPR_ARRAY_NEW": ('ast_array_new_t', 'ast_vec_new_t'),
    "AST_EXPR_VEC_REPEAT_NEW": ('ast_vec_repeat_new_t', 'ast_array_repeat_new_t'),
    "AST_EXPR_ARRAY_REPEAT_NEW": ('ast_array_repeat_new_t', 'ast_vec_repeat_new_t'),
    "AST_EXPR_EMPTY_CURLY_NEW": ('ast_empty_curly_new_t', 'ast_map_new_t', 'ast_set_new_t'),
    "AST_EXPR_MAP_NEW": ('ast_map_new_t',),
    "AST_EXPR_SET_NEW": ('ast_set_new_t', 'ast_map_new_t'),
    "AST_EXPR_TUPLE_NEW": ('ast_tuple_new_t',),
    "AST_EXPR_TUPLE_DESTR": ('ast_tuple_destr_t',),
    "AST_EXPR_STRUCT_NEW": ('ast_struct_new_t',),
    "AST_EXPR_BLOCK": ('ast_block_expr_t',),
    "AST_EXPR_ACCESS": ('ast_access_t',),
    "AST_EXPR_SELECT": ('ast_expr_select_t',),
    "AST_VAR_DECL": ('ast_var_decl_t',),
    "AST_STMT_EXPR_FAKE": ('ast_expr_fake_stmt_t', 'ast_ret_stmt_t'),
    "AST_STMT_VARDEF": ('ast_vardef_stmt_t',),
    "AST_STMT_CONSTDEF": ('ast_constdef_stmt_t',),
    "AST_STMT_VAR_TUPLE_DESTR": ('ast_var_tuple_def_stmt_t',),
    "AST_STMT_ASSIGN": ('ast_assign_stmt_t', 'ast_global_assign_stmt_t'),
    "AST_STMT_GLOBAL_ASSIGN": ('ast_global_assign_stmt_t', 'ast_assign_stmt_t'),
    "AST_STMT_RET": ('ast_ret_stmt_t', 'ast_expr_fake_stmt_t'),
    "AST_STMT_RETURN": ('ast_return_stmt_t',),
    "AST_STMT_IF": ('ast_if_stmt_t',),
    "AST_STMT_THROW": ('ast_throw_stmt_t',),
    "AST_STMT_LET": ('ast_let_t',),
    "AST_STMT_DEFER": ('ast_defer_stmt_t',),
    "AST_STMT_FOR_ITERATOR": ('ast_for_iterator_stmt_t',),
    "AST_STMT_FOR_COND": ('ast_for_cond_stmt_t',),
    "AST_STMT_FOR_TRADITION": ('ast_for_tradition_stmt_t',),
    "AST_STMT_TYPEDEF": ('ast_typedef_stmt_t',),
    "AST_STMT_SELECT": ('ast_select_stmt_t',),
    "AST_CALL": ('ast_call_t',),
    "AST_STMT_TRY_CATCH": ('ast_try_catch_stmt_t',),
    "AST_CATCH": ('ast_catch_t',),
    "AST_MATCH": ('ast_match_t',),
    "AST_FNDEF": ('ast_fndef_t',),
}

# dispatcher -> construct -> parts it must hand on ("?": only under a condition the language gives, e.g. ranges, empty lists, optional parts)
CELLS = {
    "ast_expr_copy": {
        "AST_EXPR_BINARY": "right left",
        "AST_EXPR_UNARY": "operand",
        "AST_EXPR_TERNARY": "condition consequent alternate",
        "AST_EXPR_AS": "target_type union_tag src",
        "AST_EXPR_IS": "target_type union_tag src binding",
        "AST_EXPR_TAGGED_UNION_NEW": "union_type arg",
        "AST_EXPR_TAGGED_UNION_ELEMENT": "union_type arg",
        "AST_MACRO_EXPR_SIZEOF": "target_type",
        "AST_MACRO_EXPR_REFLECT_HASH": "target_type",
        "AST_MACRO_EXPR_TYPE_EQ": "left_type right_type",
        "AST_MACRO_EXPR_DEFAULT": "target_type",
        "AST_MACRO_ASYNC": "args_copy_stmts closure_fn closure_fn_void origin_call flag_expr",
        "AST_EXPR_NEW": "type properties default_expr struct_property_t.right?",
        "AST_EXPR_MAP_ACCESS": "left key",
        "AST_EXPR_VEC_ACCESS": "left index",
        "AST_EXPR_VEC_SLICE": "left start end",
        "AST_EXPR_ARRAY_ACCESS": "left index",
        "AST_EXPR_TUPLE_ACCESS": "left",
        "AST_EXPR_STRUCT_SELECT": "instance",
        "AST_EXPR_VEC_NEW": "elements",
        "AST_EXPR_ARRAY_NEW": "elements",
        "AST_EXPR_VEC_REPEAT_NEW": "default_element length_expr",
        "AST_EXPR_ARRAY_REPEAT_NEW": "default_element length_expr",
        "AST_EXPR_MAP_NEW": "elements ast_map_element_t.key? ast_map_element_t.value?",
        "AST_EXPR_SET_NEW": "elements",
        "AST_EXPR_TUPLE_NEW": "elements",
        "AST_EXPR_TUPLE_DESTR": "elements",
        "AST_EXPR_STRUCT_NEW": "type properties struct_property_t.right?",
        "AST_EXPR_ACCESS": "left key",
        "AST_EXPR_SELECT": "left type_args",
        "AST_VAR_DECL": "type",
        "AST_CALL": "return_type left generics_args args",
        "AST_CATCH": "try_expr catch_err catch_body",
        "AST_MATCH": "subject cases ast_match_case_t.cond_list? ast_match_case_t.handle_body?",
        "AST_FNDEF": "return_type params body capture_exprs type",
    },
    "ast_stmt_copy": {
        "AST_VAR_DECL": "type",
        "AST_STMT_EXPR_FAKE": "expr",
        "AST_STMT_VARDEF": "var_decl right",
        "AST_STMT_CONSTDEF": "type right",
        "AST_STMT_VAR_TUPLE_DESTR": "tuple_destr right",
        "AST_STMT_ASSIGN": "left right",
        "AST_STMT_GLOBAL_ASSIGN": "left right",
        "AST_STMT_RET": "expr",
        "AST_STMT_RETURN": "expr",
        "AST_STMT_IF": "condition consequent alternate",
        "AST_STMT_THROW": "error",
        "AST_STMT_DEFER": "body",
        "AST_STMT_FOR_ITERATOR": "iterate? range_start? range_end? first second body",
        "AST_STMT_FOR_COND": "condition body",
        "AST_STMT_FOR_TRADITION": "init cond update body",
        "AST_STMT_TYPEDEF": "",
        "AST_STMT_SELECT": "cases ast_select_case_t.on_call? ast_select_case_t.recv_var? ast_select_case_t.handle_body?",
        "AST_CALL": "return_type left generics_args args",
        "AST_STMT_TRY_CATCH": "try_body catch_err catch_body",
        "AST_CATCH": "try_expr catch_err catch_body",
        "AST_MATCH": "subject cases ast_match_case_t.cond_list? ast_match_case_t.handle_body?",
        "AST_FNDEF": "return_type params body capture_exprs type",
    },
    "analyzer_expr": {
        "AST_EXPR_BINARY": "right left",
        "AST_EXPR_UNARY": "operand",
        "AST_EXPR_TERNARY": "condition consequent alternate",
        "AST_EXPR_AS": "target_type src",
        "AST_EXPR_IS": "target_type union_tag src",
        "AST_EXPR_TAGGED_UNION_NEW": "union_type arg",
        "AST_MACRO_EXPR_SIZEOF": "target_type",
        "AST_MACRO_EXPR_REFLECT_HASH": "target_type",
        "AST_MACRO_EXPR_TYPE_EQ": "left_type right_type",
        "AST_MACRO_EXPR_DEFAULT": "target_type",
        "AST_MACRO_ASYNC": "args_copy_stmts closure_fn closure_fn_void origin_call flag_expr",
        "AST_EXPR_NEW": "type properties default_expr struct_property_t.right?",
        "AST_EXPR_VEC_SLICE": "left start end",
        "AST_EXPR_VEC_NEW": "elements",
        "AST_EXPR_VEC_REPEAT_NEW": "default_element length_expr",
        "AST_EXPR_ARRAY_REPEAT_NEW": "default_element length_expr",
        "AST_EXPR_MAP_NEW": "elements ast_map_element_t.key? ast_map_element_t.value?",
        "AST_EXPR_SET_NEW": "elements",
        "AST_EXPR_TUPLE_NEW": "elements",
        "AST_EXPR_TUPLE_DESTR": "elements",
        "AST_EXPR_STRUCT_NEW": "type properties struct_property_t.right?",
        "AST_EXPR_ACCESS": "left key",
        "AST_EXPR_SELECT": "left type_args",
        "AST_CALL": "left generics_args args",
        "AST_CATCH": "try_expr catch_err catch_body",
        "AST_MATCH": "subject cases ast_match_case_t.cond_list? ast_match_case_t.handle_body?",
        "AST_FNDEF": "return_type? params? body?",
    },
    "analyzer_stmt": {
        "AST_VAR_DECL": "type",
        "AST_STMT_EXPR_FAKE": "expr",
        "AST_STMT_VARDEF": "var_decl right",
        "AST_STMT_CONSTDEF": "right",
        "AST_STMT_VAR_TUPLE_DESTR": "tuple_destr right",
        "AST_STMT_ASSIGN": "left right",
        "AST_STMT_GLOBAL_ASSIGN": "left right",
        "AST_STMT_RET": "expr",
        "AST_STMT_RETURN": "expr",
        "AST_STMT_IF": "condition consequent alternate",
        "AST_STMT_THROW": "error",
        "AST_STMT_DEFER": "body",
        "AST_STMT_FOR_ITERATOR": "iterate? range_start? range_end? first second body",
        "AST_STMT_FOR_COND": "condition body",
        "AST_STMT_FOR_TRADITION": "init cond update body",
        "AST_STMT_TYPEDEF": "type_expr",
        "AST_STMT_SELECT": "cases ast_select_case_t.on_call? ast_select_case_t.recv_var? ast_select_case_t.handle_body?",
        "AST_CALL": "left generics_args args",
        "AST_STMT_TRY_CATCH": "try_body catch_err catch_body",
        "AST_CATCH": "try_expr catch_err catch_body",
        "AST_FNDEF": "return_type? params? body?",
    },
    "infer_expr": {
        "AST_EXPR_BINARY": "right left",
        "AST_EXPR_UNARY": "operand",
        "AST_EXPR_TERNARY": "condition consequent alternate",
        "AST_EXPR_AS": "target_type? union_tag src",
        "AST_EXPR_IS": "target_type union_tag? src",
        "AST_EXPR_TAGGED_UNION_NEW": "union_type arg",
        "AST_MACRO_EXPR_SIZEOF": "target_type",
        "AST_MACRO_EXPR_REFLECT_HASH": "target_type",
        "AST_MACRO_EXPR_TYPE_EQ": "left_type right_type",
        "AST_MACRO_EXPR_DEFAULT": "target_type",
        "AST_MACRO_ASYNC": "args_copy_stmts closure_fn? closure_fn_void? origin_call flag_expr",
        "AST_EXPR_NEW": "type properties? default_expr? struct_property_t.right?",
        "AST_EXPR_VEC_SLICE": "left start end",
        "AST_EXPR_VEC_NEW": "elements",
        "AST_EXPR_VEC_REPEAT_NEW": "default_element length_expr?",
        "AST_EXPR_ARRAY_REPEAT_NEW": "default_element length_expr?",
        "AST_EXPR_MAP_NEW": "elements ast_map_element_t.key? ast_map_element_t.value?",
        "AST_EXPR_SET_NEW": "elements",
        "AST_EXPR_TUPLE_NEW": "elements",
        "AST_EXPR_STRUCT_NEW": "type properties struct_property_t.right?",
        "AST_EXPR_ACCESS": "left key",
        "AST_EXPR_SELECT": "left",
        "AST_CALL": "left args?",
        "AST_CATCH": "try_expr catch_body",
        "AST_MATCH": "subject cases ast_match_case_t.cond_list? ast_match_case_t.handle_body?",
        "AST_FNDEF": "return_type? params?",
    },
    "infer_left_expr": {
        "AST_EXPR_UNARY": "operand?",
        "AST_EXPR_TUPLE_DESTR": "elements",
        "AST_EXPR_ACCESS": "left key",
        "AST_EXPR_SELECT": "left",
        "AST_CALL": "left args",
    },
    "infer_stmt": {
        "AST_STMT_EXPR_FAKE": "expr",
        "AST_STMT_VARDEF": "var_decl right",
        "AST_STMT_VAR_TUPLE_DESTR": "right",
        "AST_STMT_ASSIGN": "left right",
        "AST_STMT_GLOBAL_ASSIGN": "left right var_decl",
        "AST_STMT_RET": "expr",
        "AST_STMT_RETURN": "expr",
        "AST_STMT_IF": "condition consequent alternate",
        "AST_STMT_THROW": "error",
        "AST_STMT_DEFER": "body",
        "AST_STMT_FOR_ITERATOR": "iterate? range_end? body?",
        "AST_STMT_FOR_COND": "condition body",
        "AST_STMT_FOR_TRADITION": "init cond update body",
        "AST_STMT_SELECT": "cases ast_select_case_t.on_call? ast_select_case_t.handle_body?",
        "AST_CALL": "left args",
        "AST_STMT_TRY_CATCH": "try_body catch_body",
        "AST_CATCH": "try_expr catch_body",
    },
    "linear_stmt": {
        "AST_STMT_EXPR_FAKE": "expr",
        "AST_STMT_VARDEF": "right",
        "AST_STMT_VAR_TUPLE_DESTR": "right",
        "AST_STMT_ASSIGN": "left right?",
        "AST_STMT_GLOBAL_ASSIGN": "left right?",
        "AST_STMT_RET": "expr?",
        "AST_STMT_RETURN": "expr",
        "AST_STMT_IF": "condition consequent alternate",
        "AST_STMT_THROW": "error",
        "AST_STMT_FOR_ITERATOR": "iterate body",
        "AST_STMT_FOR_COND": "condition body",
        "AST_STMT_FOR_TRADITION": "init cond update body",
        "AST_STMT_SELECT": "cases? ast_select_case_t.on_call? ast_select_case_t.handle_body?",
        "AST_CALL": "return_type left args?",
        "AST_STMT_TRY_CATCH": "try_body catch_body",
        "AST_CATCH": "try_expr catch_body",
    },
    "expr_fn_table": {
        "AST_EXPR_BINARY": "right left",
        "AST_EXPR_UNARY": "operand",
        "AST_EXPR_TERNARY": "condition consequent alternate",
        "AST_EXPR_AS": "src",
        "AST_EXPR_IS": "src",
        "AST_EXPR_TAGGED_UNION_NEW": "arg?",
        "AST_EXPR_NEW": "type properties? default_expr? struct_property_t.right?",
        "AST_EXPR_MAP_ACCESS": "left key",
        "AST_EXPR_VEC_ACCESS": "element_type left index",
        "AST_EXPR_VEC_SLICE": "left start end",
        "AST_EXPR_ARRAY_ACCESS": "left index",
        "AST_EXPR_TUPLE_ACCESS": "left",
        "AST_EXPR_STRUCT_SELECT": "instance",
        "AST_EXPR_VEC_NEW": "elements",
        "AST_EXPR_ARRAY_NEW": "elements?",
        "AST_EXPR_ARRAY_REPEAT_NEW": "default_element",
        "AST_EXPR_MAP_NEW": "elements ast_map_element_t.key? ast_map_element_t.value?",
        "AST_EXPR_SET_NEW": "elements",
        "AST_EXPR_TUPLE_NEW": "elements",
        "AST_EXPR_STRUCT_NEW": "properties struct_property_t.right?",
        "AST_EXPR_BLOCK": "body",
        "AST_CALL": "left args?",
        "AST_CATCH": "try_expr catch_body",
        "AST_MATCH": "subject cases ast_match_case_t.cond_list? ast_match_case_t.handle_body?",
    },
}

TYPES = {"TYPE_VEC": "type_vec_t", "TYPE_ARR": "type_array_t", "TYPE_MAP": "type_map_t", "TYPE_SET": "type_set_t", "TYPE_TUPLE": "type_tuple_t",
         "TYPE_CHAN": "type_chan_t", "TYPE_STRUCT": "type_struct_t", "TYPE_FN": "type_fn_t", "TYPE_REF": "type_ptr_t", "TYPE_PTR": "type_ptr_t",
         "TYPE_UNION": "type_union_t", "TYPE_INTERFACE": "type_interface_t", "TYPE_TAGGED_UNION": "type_tagged_union_t", "TYPE_ENUM": "type_enum_t"}
# (function, record member) pairs a type pass need not enter
TYPE_SKIP = {("reduction_type", "type_array_t", "length_expr"), ("analyzer_type", "type_interface_t", "alloc_types"), ("analyzer_type", "type_interface_t", "deny_types")}
TYPE_ALSO = {"type_array_t": ["length_expr"], "type_struct_t": ["struct_property_t.right", "struct_property_t.type"]}

PASSES = [
    ("src/ast.c", ["ast_expr_copy", "ast_stmt_copy", "type_copy"], ["ast_expr_copy", "ast_stmt_copy"]),
    ("src/semantic/analyzer.c", ["analyzer_expr", "analyzer_stmt", "analyzer_type"], ["analyzer_expr", "analyzer_stmt"]),
    ("src/semantic/infer.c", ["infer_expr", "infer_stmt", "infer_left_expr", "reduction_type"], ["infer_expr", "infer_left_expr", "infer_stmt"]),
    ("src/linear.c", ["linear_expr", "linear_stmt"], ["linear_stmt", "expr_fn_table"]),
]
# dispatchers whose unknown kinds must stop the compiler instead of passing silently
CLOSED = ["ast_expr_copy", "ast_stmt_copy", "infer_expr", "infer_left_expr", "linear_expr"]
# members of copied records that are filled in only after the copy was made
LATE = {("struct_property_t", "align"), ("struct_property_t", "offset")}


# members that are set by a later pass only, or that name something outside the copied tree
SHARED = {("ast_map_access_t", "key_type"), ("ast_map_access_t", "value_type"), ("ast_vec_access_t", "element_type"), ("ast_array_access_t", "element_type"),
          ("ast_tuple_access_t", "element_type"), ("ast_macro_async_t", "return_type"), ("ast_expr_t", "type"), ("ast_expr_t", "target_type"),
          ("ast_assign_stmt_t", "var_decl"), ("ast_global_assign_stmt_t", "var_decl"), ("ast_fndef_t", "generics_params"), ("ast_fndef_t", "impl_type"),
          ("ast_fndef_t", "be_capture_locals"), ("ast_fndef_t", "local_children")}

# visited in a nested loop whose outer iterations may leave it to another branch
LOOSE = {("analyzer_expr", "AST_MATCH", "ast_match_case_t.handle_body")}


def body(c):
    c.rule("visit", "for each construct, the pass hands every part on to itself on every path (or tests that the part is absent)", 250)
    c.rule("dispatch", "every construct the parser can produce has an entry in each pass that meets it", 150)
    c.rule("closed", "a construct without an entry stops the compiler; it is never dropped silently", 4)
    c.rule("type-visit", "copying, resolving and reducing a type enters every component type", 40)
    c.rule("whole-copy", "a copied record starts from all members of the original or assigns each of them", 50)
    c.rule("result", "the copy of a part is what the new record holds", 100)
    c.rule("opcode", "each machine back end has an emitter for every instruction of the intermediate form that reaches it", 60)
    p = Program("compiler", lambda f: f.startswith(("src/", "utils/")))
    never = neverreturn(p)
    c.section(passes, c, p, never)
    c.section(types, c, p, never)
    c.section(copies, c, p)
    c.section(natives, c, p)


def neverreturn(p):
    """functions without a normal return"""
    out = set(NORETURN)
    names = [f for f in p.unique()]
    ch = True
    while ch:
        ch = False
        for f in names:
            if f.name in out or not f.blocks:
                continue
            seen, st, ret = set(), [0], False
            while st and not ret:
                b = st.pop()
                if b in seen:
                    continue
                seen.add(b)
                if any(i.op == "call" and i.callee in out for i in f.blocks[b]):
                    continue
                ret = f.blocks[b][-1].op == "ret"
                st += f.succ[b]
            if not ret:
                out.add(f.name)
                ch = True
    return out


def table_entry(p, table, k):
    g = p.globals.get(table)
    if not g:
        raise AnalysisError("table '%s' not found" % table)
    init = g["init"]
    if not init or init[0] != "arr":
        raise AnalysisError("table '%s' has no constant contents" % table)
    h = init[k + 1] if k + 1 < len(init) else None
    return h.lstrip("@") if isinstance(h, str) else None


def passes(c, p, never):
    for file, roots, disp in PASSES:
        P = Pass(p, file, roots)
        P.never = never
        for d in disp:
            top = p.need("linear_expr") if d == "expr_fn_table" else p.need(d)
            c.unit(d)
            for K, parts in CELLS[d].items():
                k = p.enum(K)
                f, kind = top, k
                if d == "expr_fn_table":
                    h = table_entry(p, d, k)
                    f, kind = (p.resolve(top.tu, h) if h else None), None
                    c.check("dispatch", d, f is not None, "%s|%s" % (d, K), top.loc, "%s has no entry for %s" % (d, K))
                    if f is None:
                        continue
                else:
                    c.check("dispatch", d, P.handles(f, k), "%s|%s" % (d, K), top.loc, "%s does nothing for %s" % (d, K))
                for part in parts.split():
                    need = not part.endswith("?")
                    part = part.rstrip("?")
                    if "." in part:
                        st, ch = part.split(".")
                        keys = frozenset([(st, ch)])
                    else:
                        keys = frozenset((t, part) for t in KINDS[K])
                    must, may, tight = P.visit(f, keys, kind)
                    tight = tight or (d, K, part) in LOOSE
                    c.check("visit", d, may and tight and (must or not need), "%s|%s|%s" % (d, K, part), f.loc,
                            "%s of %s: '%s' is %s by %s" % (d, K, part, "skipped on some path or in some iteration" if may else "never handed on", f.name))
        for d in CLOSED:
            if d in disp or d == "linear_expr" and "expr_fn_table" in disp:
                f = p.need(d)
                if d == "linear_expr":
                    r = P.null_call(f)
                    c.check("closed", d, r is None, d, f.loc, "%s calls a missing table entry" % d)
                else:
                    r = P.returns(f, 9999)
                    c.check("closed", d, r is None, d, f.loc, "%s returns normally for a construct it has no case for" % d)


def types(c, p, never):
    for file, fn, roots in (("src/ast.c", "type_copy", ["ast_expr_copy", "ast_stmt_copy", "type_copy"]),
                            ("src/semantic/analyzer.c", "analyzer_type", ["analyzer_type", "analyzer_expr"]),
                            ("src/semantic/infer.c", "reduction_type", ["reduction_type", "infer_expr"])):
        P = Pass(p, file, roots, ("kind", "type_t"))
        P.never = never
        f = p.need(fn)
        c.unit(fn)
        for K, T in TYPES.items():
            for ch in children(p, T) + TYPE_ALSO.get(T, []):
                if (fn, T, ch) in TYPE_SKIP:
                    continue
                inner = "." in ch
                must, may, tight = P.visit(f, frozenset([tuple(ch.split(".")) if inner else (T, ch)]), p.enum(K))
                must = must or inner
                c.check("type-visit", fn, may and tight and (must or fn != "type_copy"), "%s|%s|%s" % (fn, K, ch), f.loc,
                        "%s of %s: '%s' is %s" % (fn, K, ch, "skipped on some path or in some iteration" if may else "never entered"))


def copies(c, p):
    fam = [f for f in p.unique() if f.file == "src/ast.c" and "_copy" in f.name]
    sizes = {}
    for n, s in p.structs.items():
        sizes.setdefault(s["size"], []).append(n)
    for f in fam:
        c.unit(f.name)
        allocs = [i for i in f.insts() if i.op == "call" and i.callee in ("mallocz", "malloc", "calloc")]
        for a in allocs:
            base = static_expr(f, a.id)
            size = const(static_expr(f, a.ops[-1]))
            whole, fields, structs = False, {}, set()
            for i in f.insts():
                if i.op == "call" and i.callee and "memcpy" in i.callee or i.op == "store":
                    d = static_expr(f, i.ops[0] if i.op == "call" else i.ops[1])
                    if i.op == "call" and d == base:
                        n = const(static_expr(f, i.ops[2]))
                        whole = whole or (n is not None and n == size)
                        continue
                    src = static_expr(f, i.ops[1] if i.op == "call" else i.ops[0])
                    while d[0] == "fld" and d[1] != base:
                        d = d[1]
                    if d[0] == "fld":
                        fields.setdefault(d[3], []).append((i, src))
                        structs.add(d[2])
                elif i.op == "call" and i.callee and not i.callee.startswith("llvm."):
                    for o in i.ops:
                        d = static_expr(f, o)
                        if d[0] == "fld" and d[1] == base:
                            fields.setdefault(d[3], []).append((i, ("call", i.callee, 0)))
                            structs.add(d[2])
            if whole and not structs:
                structs = {x[1] for i in f.insts() if i.op == "gep" for x in i.x if x[0] == "f"}
            T = [t for t in sorted(structs) if p.structs.get(t, {}).get("size") == size]
            if not whole and not T:
                continue
            missing = [] if whole else [m[0] for m in p.structs[T[0]]["m"] if m[0] and m[0] not in fields and (T[0], m[0]) not in LATE]
            c.check("whole-copy", f.name, not missing, "%s|%s" % (f.name, ",".join(missing)), a.loc,
                    "%s leaves %s of the copied record unset" % (f.name, ", ".join(missing)))
            for m in p.structs[T[0]]["m"] if T else []:
                if m[3] in PTRS and (T[0], m[0]) not in SHARED:
                    c.check("result", f.name, m[0] in fields, "%s|%s|kept" % (f.name, m[0]), a.loc,
                            "%s keeps '%s' of the original instead of a copy" % (f.name, m[0]))
            for fld, srcs in fields.items():
                if not T:
                    continue
                for i, src in srcs:
                    if src[0] == "call" and isinstance(src[1], str) and src[1] in ("ct_list_new", "slice_new"):
                        filled = any(j.op == "call" and j.callee in ("ct_list_push", "slice_push", "slice_concat") and (static_expr(f, j.ops[0]) == src or any(x[0] == "fld" and x[1] == base and x[3] == fld for x in subexprs(static_expr(f, j.ops[0]))))
                                     for j in f.insts())
                        c.check("result", f.name, filled or (T[0], fld) in SHARED, "%s|%s|filled" % (f.name, fld), i.loc, "%s gives the copy an empty '%s'" % (f.name, fld))
                m = [x for x in p.structs[T[0]]["m"] if x[0] == fld]
                if not m or m[0][3] not in PTRS:
                    continue
                # a member assigned from the original without a call is shared
                for i, src in srcs:
                    plain = unversion(strip_all(src))
                    shared = plain[0] == "ld" and plain[1][0] == "fld" and plain[1][3] == fld and plain[1][1][0] == "a"
                    c.check("result", f.name, not shared, "%s|%s" % (f.name, fld), i.loc, "%s shares '%s' with the original" % (f.name, fld))


# instructions that exist only before a given back end
GONE = {"LIR_OPCODE_PHI", "LIR_OPCODE_POP", "LIR_OPCODE_VADD", "LIR_OPCODE_VSUB", "LIR_OPCODE_VMUL", "LIR_OPCODE_VDIV", "LIR_OPCODE_VLOAD", "LIR_OPCODE_VSTORE"}


def natives(c, p):
    codes = p.enums.get("lir_opcode_t")
    if not codes:
        raise AnalysisError("enumeration lir_opcode_t not found")
    for arch in ("amd64", "arm64", "riscv64"):
        table = arch + "_native_table"
        for n, v in sorted(codes.items()):
            if n in GONE or n.startswith("ARM64_") and arch != "arm64" or arch == "amd64" and n in ("LIR_OPCODE_SREM", "LIR_OPCODE_UREM"):
                continue
            c.check("opcode", table, table_entry(p, table, v) is not None, "%s|%s" % (table, n), "src/native/%s.c" % arch, "%s has no emitter for %s" % (table, n))


main("R14", TECH, body)
