"""Second opinion: the same query given to cvc5 as SMT-LIB text."""
import subprocess, shutil
import z3


def smt2(forms):
    s = z3.Solver()
    s.add(*forms)
    txt = s.to_smt2()
    return '(set-logic ALL)\n' + txt


def cvc5_check(forms, timeout_ms=30000):
    exe = shutil.which('cvc5')
    if exe is None:
        return 'unknown'
    try:
        p = subprocess.run([exe, '--lang=smt2', '--tlimit=%d' % timeout_ms, '--nl-ext-tplanes', '-'],
                           input=smt2(forms), capture_output=True, text=True,
                           timeout=timeout_ms / 1000 + 10)
    except Exception:
        return 'unknown'
    if '(error' in p.stdout or '(error' in p.stderr:
        return 'unknown'
    for line in p.stdout.split('\n'):
        if line.strip() in ('sat', 'unsat', 'unknown'):
            return line.strip()
    return 'unknown'
