CHECKS = {}


def check(p):
    def d(f): CHECKS[p] = f; return f
    return d


@check('C01')
def _(rep):
    import c_rules; c_rules.run(rep, 'CARDINAL')


@check('C02')
def _(rep):
    import c_rules; c_rules.run(rep, 'ORDINAL')


for _p in ('C03', 'C04', 'C05', 'C13'):
    def _mk(p):
        def f(rep):
            import c_table; getattr(c_table, p.lower())(rep)
        return f
    CHECKS[_p] = _mk(_p)
for _p in ('C07', 'C08', 'C09', 'C10'):
    def _mk(p):
        def f(rep):
            import c_ops; getattr(c_ops, p.lower())(rep)
        return f
    CHECKS[_p] = _mk(_p)
for _p in ('C06', 'C11'):
    def _mk(p):
        def f(rep):
            import c_run; getattr(c_run, p.lower())(rep)
        return f
    CHECKS[_p] = _mk(_p)
for _p in ('C12', 'C24'):
    def _mk(p):
        def f(rep):
            import c_eff; getattr(c_eff, p.lower())(rep)
        return f
    CHECKS[_p] = _mk(_p)
for _p in ('C18', 'C19', 'C20', 'C21', 'C23'):
    def _mk(p):
        def f(rep):
            import c_gen; getattr(c_gen, p.lower())(rep)
        return f
    CHECKS[_p] = _mk(_p)


@check('C22')
def _(rep):
    import c_cli; c_cli.c22(rep)


for _p in ('C14', 'C15', 'C16', 'C17'):
    def _mk(p):
        def f(rep):
            import c_parse; getattr(c_parse, p.lower())(rep)
        return f
    CHECKS[_p] = _mk(_p)


@check('C26')
def _(rep):
    import c_val; c_val.run(rep)
