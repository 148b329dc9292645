"""second opinion: the query as SMT-LIB text to cvc5"""
import subprocess, tempfile, os, z3


def cvc5(e, st, f, timeout):
    s = z3.Solver()
    fs = st.pc + [z3.Not(f)]
    s.add(*fs)
    s.add(*e.instantiate(fs))
    txt = '(set-logic ALL)\n' + s.to_smt2()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as t:
        t.write(txt)
    try:
        r = subprocess.run(['cvc5', '--strings-exp', '--tlimit=%d' % (timeout * 1000), t.name], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout + 5)
        return r.stdout.decode().split('\n')[0].strip()
    except Exception:
        return 'unknown'
    finally:
        os.unlink(t.name)
