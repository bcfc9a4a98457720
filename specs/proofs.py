"""Registry of the machine-checked contracts."""
import os, sys
PROOFS = {}

def proof(name, files, functions, contracts=None, **flags):
    """register run(mk): it makes an engine with mk(), and discharges the
    obligations of `functions`"""
    def deco(fn):
        PROOFS[name] = dict(run=fn, files=files if isinstance(files, list) else [files], functions=functions if isinstance(functions, list) else [functions],
                            contracts=contracts or {}, flags=flags)
        return fn
    return deco

import s_audit, s_csource, s_sqlgen, s_sql, s_diff, s_json, s_writer, s_main, s_lang, s_link, s_nodejs, s_parse
