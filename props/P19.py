"""Tokens."""
import subprocess
from .common import *
from . import lexing
from mirv import build
from e2e.suites import p19 as suite
cases, RULE = suite.cases, suite.RULE


def native(tier, seed):
    exe = build.native('lex', {'LEXER_PATH': 'src/lexer.rs'})
    n, k = ('4', '150000') if tier == 'quick' else ('5', '3000000')
    r = subprocess.run([exe, n, k, str(seed)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=400)
    out = r.stdout.decode('utf-8', 'replace').split('\n')
    bad = [tuple(l.split('\t')[1:3]) for l in out if l.startswith('BAD\t')]
    cnt = [int(l.split()[1]) for l in out if l.startswith('COUNT ')]
    if not cnt:
        raise RuntimeError('the harness ended without a result: %r' % r.stderr[-300:])
    return cnt[0], 'texts scanned by the real lexer and by a reference scanner', bad


PROOFS = [('the next token', lexing.g_next), ('advance, new, characters of words', lexing.g_helpers), ('tokens and what is between them', lexing.g_places)]
ASSUMES = lexing.ASSUMES
PROOF_SECONDS = {'quick': 200, 'thorough': 400}
