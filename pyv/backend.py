"""cvc5 as second back end (bindings in the python3-vt environment)."""


def cvc5_check(smt2, timeout_s=8.0):
    try:
        import cvc5
    except Exception:
        return 'unknown'
    try:
        tm = cvc5.TermManager() if hasattr(cvc5, 'TermManager') else None
        slv = cvc5.Solver(tm) if tm is not None else cvc5.Solver()
        slv.setOption('tlimit-per', str(int(timeout_s * 1000)))
        slv.setOption('strings-exp', 'true')
        slv.setLogic('ALL')
        sm = slv.getSymbolManager() if hasattr(slv, 'getSymbolManager') else None
        parser = cvc5.InputParser(slv)
        parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, smt2, 'q')
        symman = parser.getSymbolManager()
        res = 'unknown'
        while True:
            cmd = parser.nextCommand()
            if cmd.isNull():
                break
            if 'set-logic' in str(cmd):
                continue
            o = cmd.invoke(slv, symman)
            o = str(o).strip() if o else ''
            if o in ('sat', 'unsat', 'unknown'):
                res = o
        return res
    except Exception as e:
        return 'unknown'
