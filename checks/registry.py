"""what each check runs: contracts (proofs) and bounded stand-ins (oracles)"""
import os, sys
sys.path[:0] = [os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), d) for d in ("ortv", "specs")]
import o_text as T, o_sql as S, o_e2e as E, o_misc as X
def px(f, *ns): return ['%s:%s' % (f, n) for n in ns]
SQLUP = px('lang-sql', 'gen_check_fields', 'gen_check_bitfs', 'gen_check_enms', 'gen_check_strcts', 'gen_literal', 'gen_diff_field_new', 'gen_prologue', 'gen_unique_field', 'gen_unique', 'gen_diff_unique_field_del', 'gen_diff_unique_del', 'ort_lang_diff_sql')
SQLNEW = px('lang-sql', 'gen_struct', 'gen_unique', 'gen_unique_field', 'ort_lang_sql')
DIFF = px('diff', 'ort_check_rolemap_roles', 'ort_check_comment', 'ort_check_labels', 'ort_check_urefs', 'ort_check_fvalids', 'ort_check_sentq', 'ort_check_ordq', 'ort_check_insert_order',
  'ort_diff_searchq', 'ort_diff_strct_updateq', 'ort_diff_bitf', 'ort_diff_enm', 'ort_diff_fields', 'ort_diff_role', 'ort_diff_roleq', 'ort_diff_bitidx', 'ort_diff_eitem', 'ort_diff_field',
  'ort_diff_urefq', 'ort_diff_update', 'ort_diff_search', 'ort_diff_strct_insert', 'ort_diff_strct', 'ort_diff_enms', 'ort_diff_bitfs', 'ort_diff_strcts', 'ort_diff_roles', 'ort_diff') + ['maindiff:exit']
def allof(f, *but):
    import proofs
    return [k for k in proofs.PROOFS if k.startswith(f + ':') and k.split(':')[1] not in but]
CROLE = px('lang-c-source', 'gen_role_stmt', 'gen_role_stmt_all', 'gen_roles', 'gen_role', 'gen_role_hier', 'gen_func_rolecases', 'gen_func_role_transitions', 'gen_open')
CJSON = px('lang-c-source', 'gen_json_out_field', 'gen_json_out', 'gen_role', 'has_ancestor', 'gen_fill')
CVALID = px('lang-c-source', 'gen_valids_field', 'gen_valids', 'gen_valid')
CQUERY = px('lang-c-source', *('gen_' + x for x in ('bind bind_val bind_hash newpass checkpass iterator list count search insert update reffind_bind reffind fill_r fill_field fill '
  'unfill unfill_r free freeq transactions close open').split()))
SQLGEN = [k for k in __import__('proofs').PROOFS if k.startswith(('lang:gen_sql', 'lang:gen_enum', 'lang:gen_ws')) and not k.endswith('.comments')]
def node(*ns): return px('lang-nodejs', *(('gen_' + n) for n in ns))
NROLE = node(*'role rolemap ortctx_dbrole_role ortctx_dbrole ortctx api'.split())
NQUERY = node(*'var fill reffind insert update checkpass query_checkpass query api rolemap alias_builder ortctx ortdb ortargs'.split())
PARSE = [k for k in __import__('proofs').PROOFS if k.startswith('parser')]
PNUM = px('parser_bitfield', 'parse_bitidx_item', 'parse_bitidx', 'parse_bitfield') + px('parser_enum', 'parse_enum_item', 'parse_enum_data', 'parse_enum') + px('parser', 'parse_label', 'parse_comment')
NUMOUT = px('lang-json', 'gen_enm', 'gen_bitidx', 'gen_bitf') + px('writer', 'parse_write_bitf', 'parse_write_enm') + node('enm', 'bitf')
PRULES = ['%s.safe' % k for k in px('parser_field', 'parse_validate', 'parse_field_info', 'field_alloc', 'parse_field') + px('parser_struct', *(['parse_config_' + x for x in ('search_terms', 'limit_params', 'search_params')] + ['parse_struct_' + x for x in 'unique search roles comment insert data'.split()])) + px('parser_roles', 'parse_role', 'parse_roles')] \
  + px('parser', 'parse_check_badidents', 'parse_check_dupetoplevel', 'parse_label') + px('parser_bitfield', 'parse_bitidx') + px('parser_enum', 'parse_enum_data')
CHECKS = {
 'P01': dict(proofs=SQLUP + ['lang-sql:gen_struct'], oracle=S.p01),
 'P02': dict(proofs=SQLNEW, oracle=S.p02),
 'P03': dict(proofs=DIFF, oracle=T.p03),
 'P04': dict(proofs=['audit:rolemap_has'], oracle=T.p04),
 'P05': dict(proofs=['audit:rolemap_has', *CROLE, *NROLE, *node('query', 'insert', 'update')], oracle=E.p05),
 'P06': dict(proofs=CJSON + node('strct', 'role', 'ortns', 'fill'), oracle=E.p06),
 'P07': dict(proofs=CVALID + node('ortns_express_valid', 'ortns_express_valids', 'enm', 'bitf'), oracle=E.p07),
 'P08': dict(proofs=[k for k in __import__('proofs').PROOFS if k.endswith('.comments') or k.startswith('lang:gen_comment')], oracle=X.p08),
 'P09': dict(proofs=['lang-json:gen_string', 'lang-sql:gen_literal'], oracle=X.p09),
 'P10': dict(proofs=allof('lang-json'), oracle=T.p10),
 'P11': dict(proofs=PRULES, oracle=X.p11),
 'P13': dict(proofs=[], oracle=X.p13),
 'P14': dict(proofs=[], oracle=T.p14),
 'P15': dict(proofs=PNUM + NUMOUT, oracle=X.p15),
 'P16': dict(proofs=allof('linker_aliases') + [k for k in SQLGEN if 'gen_sql_stmt_' in k], oracle=E.p16),
 'P18': dict(proofs=[k for k in __import__('proofs').PROOFS if k.endswith(':main')], oracle=X.p18),
 'P19': dict(proofs=[k for k in PARSE if k.endswith('.safe') or k in ('parser:buf_push', 'parser:parse_next')], oracle=X.p19),
 'P20': dict(proofs=allof('writer', 'parse_write_label'), oracle=T.p20),
 'P21': dict(proofs=CQUERY + SQLGEN + NQUERY + ['lang-nodejs:ort_lang_nodejs'], oracle=E.p21),
}
