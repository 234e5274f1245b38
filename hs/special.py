"""Fixed scenarios: the known findings, told apart from everything else by their exact input and signature."""
def run(pid):
    """-> (known findings that still show, violations [(spec, messages)])"""
    if pid != 'P16': return [], []
    from . import sim, runner
    known = {k.split(' ', 1)[0]: k.split(' ', 1)[1] for k in runner.known_findings(pid)}
    srv = sim.Server()
    # clap 2.33 (a dependency) itself panics while composing its message about an unknown option when a later argument is not UTF-8
    sc = {'argv': ['hush', '--nosuch', '\xff'], 'script': '', 'progs': {}, 'fs': [['d', '/w']]}
    h = srv.run(sc); srv.stop()
    if h.how == 'EXIT' and h.code == 1 and h.hush_wrote(2): return [], []
    if h.how == 'EXIT' and h.code == 101 and b'unexpected invalid UTF-8 code point' in h.hush_wrote(2) and 'id=clap-nonutf8' in known:
        return [known['id=clap-nonutf8']], []
    return [], [({'stmts': [], 'sc': sc, 'rawscript': 1}, ['[P16] an unknown option followed by an argument that is not UTF-8: %s' % h.describe_end()])]
