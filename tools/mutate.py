#!/usr/bin/env python3
# -*- coding: utf-8 -*-
"""Development tool (no check uses it): mutation analysis of the checks.

    mutate.py list  OUT.json            small syntactic changes of the code (one per record)
    mutate.py tests OUT.json            which of them the existing tests do not notice
    mutate.py checks OUT.json [C01 ..]  which of these the checks do not notice

Works in scratch copies under /tmp/m (JOBS of them); /repo is never touched.
"""
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VENV = {'fast': '/opt/venv/bin/python', 'slow': '/opt/venv-slow/bin/python'}
FILES = ['analyzer.py', 'cache.py', 'cli.py', 'dawg.py', 'shapes.py', 'tagset.py', 'tokenizers.py', 'utils.py', 'opencorpora_dict/compile.py',
         'opencorpora_dict/parse.py', 'opencorpora_dict/preprocess.py', 'opencorpora_dict/probability.py', 'opencorpora_dict/storage.py',
         'opencorpora_dict/wrapper.py', 'units/abbreviations.py', 'units/base.py', 'units/by_analogy.py', 'units/by_hyphen.py', 'units/by_lookup.py',
         'units/by_shape.py', 'units/unkn.py', 'units/utils.py', 'lang/ru/config.py', 'lang/uk/config.py']
ORDER = {
    'analyzer.py': 'C02 C03 C05 C01 C07 C22 C23 C34 C29 C09 C04 C30 C32 C31 C37', 'cache.py': 'C33 C36', 'cli.py': 'C33 C28 C38', 'dawg.py': 'C06 C03 C27 C28 C25',
    'shapes.py': 'C15 C16 C21', 'tagset.py': 'C12 C13 C14 C11 C10 C32 C30 C29 C31', 'tokenizers.py': 'C17 C33', 'utils.py': 'C36 C19 C10',
    'opencorpora_dict/compile.py': 'C24 C25 C26 C38', 'opencorpora_dict/parse.py': 'C35 C24 C28', 'opencorpora_dict/preprocess.py': 'C24 C35',
    'opencorpora_dict/probability.py': 'C28', 'opencorpora_dict/storage.py': 'C26 C24 C38 C25 C28', 'opencorpora_dict/wrapper.py': 'C04 C07 C26 C23 C08 C06',
    'units/abbreviations.py': 'C21 C08 C02 C37 C14 C22', 'units/base.py': 'C22 C08 C02 C09', 'units/by_analogy.py': 'C18 C19 C02 C08 C22 C37 C27',
    'units/by_hyphen.py': 'C39 C20 C08 C02 C09 C01 C22', 'units/by_lookup.py': 'C04 C08 C06 C02 C09', 'units/by_shape.py': 'C15 C02 C08 C22', 'units/unkn.py': 'C01 C02 C22 C08',
    'units/utils.py': 'C20 C02 C08 C18', 'lang/ru/config.py': 'C01 C18 C21 C20 C22 C06', 'lang/uk/config.py': 'C37',
}
ALL = ['C%02d' % i for i in range(1, 41)]


def candidates(src):
    """[(start, end, replacement, what)] for one file."""
    tree = ast.parse(src)
    starts = [0]
    for line in src.splitlines(True):
        starts.append(starts[-1] + len(line.encode('utf8')))
    raw = src.encode('utf8')

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = span(n)
        return raw[a:b].decode('utf8')
    out = []

    def add(n, new, what):
        a, b = span(n)
        out.append((a, b, new, what))
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(id(n.body[0].value))
    in_raise = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Raise, ast.Assert)) or isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('info', 'debug', 'warn', 'warning', 'write'):
            for m in ast.walk(n):
                in_raise.add(id(m))
    swap = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}
    for n in ast.walk(tree):
        if id(n) in in_raise:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            add(n, '%s %s %s' % (text(n.left), swap[type(n.ops[0])], text(n.comparators[0])), 'compare')
        elif isinstance(n, ast.BoolOp):
            op = ' or ' if isinstance(n.op, ast.And) else ' and '
            add(n, '(' + op.join('(%s)' % text(v) for v in n.values) + ')', 'boolop')
            for k in range(len(n.values)):
                rest = [v for i, v in enumerate(n.values) if i != k]
                add(n, '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join('(%s)' % text(v) for v in rest) + ')', 'drop operand')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, '(%s)' % text(n.operand), 'drop not')
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)):
            new = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.Div: '*'}[type(n.op)]
            add(n, '(%s %s %s)' % (text(n.left), new, text(n.right)), 'arithmetic')
            add(n, text(n.left), 'left operand')
            add(n, text(n.right), 'right operand')
        elif isinstance(n, ast.Constant) and id(n) not in docs:
            v = n.value
            if v is True or v is False:
                add(n, repr(not v), 'bool')
            elif isinstance(v, int):
                add(n, str(v + 1), 'int')
                if v > 0:
                    add(n, str(v - 1), 'int')
            elif isinstance(v, float):
                add(n, repr(round(v * 0.9, 4)), 'float')
            elif isinstance(v, str) and v and '\n' not in text(n):
                add(n, repr(v[:-1]), 'string')
                add(n, repr(v + 'x'), 'string')
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and not n.args and not n.keywords:
                add(n, text(n.func.value), 'drop .%s()' % n.func.attr)
            if isinstance(n.func, ast.Name) and n.func.id in ('sorted', 'set', 'frozenset', 'list', 'tuple', 'reversed', 'str', 'int', 'abs', 'len') and len(n.args) >= 1:
                add(n, text(n.args[0]), 'drop %s()' % n.func.id)
            for k in range(len(n.keywords)):
                parts = [text(a) for a in n.args] + ['%s=%s' % (w.arg, text(w.value)) if w.arg else '**' + text(w.value) for i, w in enumerate(n.keywords) if i != k]
                add(n, '%s(%s)' % (text(n.func), ', '.join(parts)), 'drop keyword')
            if len(n.args) == 2 and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args):
                add(n, '%s(%s, %s)' % (text(n.func), text(n.args[1]), text(n.args[0])), 'swap arguments')
        elif isinstance(n, (ast.List, ast.Tuple, ast.Set)) and len(n.elts) > 1 and isinstance(getattr(n, 'ctx', ast.Load()), ast.Load) and id(n) not in in_raise:
            a, b = span(n)
            for k, e in enumerate(n.elts):
                ea, eb = span(e)
                if k + 1 < len(n.elts):
                    eb = span(n.elts[k + 1])[0]
                else:
                    ea = span(n.elts[k - 1])[1]
                out.append((ea, eb, '', 'drop element'))
        elif isinstance(n, ast.Dict) and len(n.keys) >= 1:
            for k in range(len(n.keys)):
                if n.keys[k] is None:
                    continue
                items = ['%s: %s' % (text(a), text(b)) for i, (a, b) in enumerate(zip(n.keys, n.values)) if i != k]
                add(n, '{' + ', '.join(items) + '}', 'drop item')
        elif isinstance(n, ast.If):
            add(n.test, 'True', 'if True')
            add(n.test, 'False', 'if False')
        elif isinstance(n, ast.IfExp):
            add(n, '(%s)' % text(n.body), 'then')
            add(n, '(%s)' % text(n.orelse), 'else')
        elif isinstance(n, ast.Continue):
            add(n, 'break', 'continue')
            add(n, 'pass', 'continue')
        elif isinstance(n, ast.Break):
            add(n, 'pass', 'break')
            add(n, 'continue', 'break')
        elif isinstance(n, ast.Expr) and not isinstance(n.value, (ast.Constant, ast.Yield)):
            add(n, 'pass', 'drop statement')
        elif isinstance(n, (ast.Assign, ast.AugAssign)) and n.col_offset >= 8:
            add(n, 'pass', 'drop assignment')
        elif isinstance(n, ast.Return) and n.value is not None:
            add(n, 'return', 'return nothing')
        elif isinstance(n, ast.Slice):
            pass
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) and isinstance(n.ctx, ast.Load):
            add(n, text(n.value), 'drop slice')
        elif isinstance(n, ast.FunctionDef) and n.decorator_list:
            for dec in n.decorator_list:
                if text(dec) not in ('property', 'classmethod', 'staticmethod'):
                    a, b = span(dec)
                    out.append((a - 1, b, '', 'drop decorator'))
    if os.environ.get('NAMES'):
        # other names of the same function, other attributes of self, neighbouring statements in the other order
        out = []
        attrs = sorted(set(n.attr for n in ast.walk(tree) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self'))
        for f in ast.walk(tree):
            if not isinstance(f, ast.FunctionDef):
                continue
            names = set(a.arg for a in f.args.args if a.arg not in ('self', 'cls'))
            names |= set(n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store))
            for n in ast.walk(f):
                if id(n) in in_raise:
                    continue
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in names:
                    for o in sorted(names - {n.id}):
                        add(n, o, 'other name')
                elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self' and isinstance(n.ctx, ast.Load):
                    for o in attrs:
                        if o != n.attr and len(attrs) < 12:
                            add(n, 'self.' + o, 'other attribute')
                for body in [getattr(n, x, None) for x in ('body', 'orelse')]:
                    for x, y in zip(body or [], (body or [])[1:]) if isinstance(body, list) else []:
                        if x.lineno != y.lineno and not isinstance(x, ast.Return) and not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant)):
                            a, b = span(x)[0], span(y)[1]
                            gap = raw[span(x)[1]:span(y)[0]].decode('utf8')
                            out.append((a, b, text(y) + gap + text(x), 'swap statements'))
    seen, res = set(), []
    for a, b, new, what in out:
        # explicit in-string positions in f-strings etc. never occur here
        m = raw[:a] + new.encode('utf8') + raw[b:]
        if m in seen or m == raw:
            continue
        seen.add(m)
        try:
            compile(m, 'x', 'exec', dont_inherit=True)
        except (SyntaxError, ValueError):
            continue
        res.append((a, b, new, what, raw[:a].count(b'\n') + 1, raw[a:b].decode('utf8')))
    return res


def make_list(out):
    random.seed(1)
    muts = []
    for f in FILES:
        src = open(os.path.join('/repo/pymorphy2', f), encoding='utf8').read()
        c = candidates(src)
        if f.startswith('lang/') and len(c) > 90:
            c = random.sample(c, 90)
        for a, b, new, what, line, old in c:
            muts.append(dict(id=len(muts), file=f, a=a, b=b, new=new, what=what, line=line, old=old))
    json.dump(muts, open(out, 'w'), ensure_ascii=False, indent=0)
    print(len(muts))
    from collections import Counter
    print(Counter(m['file'] for m in muts))


_local = threading.local()
_n = iter(range(1000))


def tree():
    if not hasattr(_local, 'path'):
        p = '/tmp/m/mut/t%d' % next(_n)
        shutil.rmtree(p, ignore_errors=True)
        subprocess.check_call(['git', 'clone', '-q', '/repo', p])
        _local.path = p
    subprocess.check_call('git checkout -q -- . && git clean -qfdx', cwd=_local.path, shell=True)
    return _local.path


def apply(m, p):
    fn = os.path.join(p, 'pymorphy2', m['file'])
    with open(fn, 'rb') as f:
        raw = f.read()
    assert raw[m['a']:m['b']].decode('utf8') == m['old']
    with open(fn, 'wb') as f:
        f.write(raw[:m['a']] + m['new'].encode('utf8') + raw[m['b']:])


def test(m):
    p = tree()
    apply(m, p)
    for v in ('fast', 'slow'):
        env = dict(os.environ, PYTHONPATH=p, PYTHONDONTWRITEBYTECODE='1')
        try:
            r = subprocess.run([VENV[v], '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--tb=line', '--timeout=60', '--doctest-modules', 'pymorphy2', 'tests'],
                               cwd=p, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=150)
        except subprocess.TimeoutExpired:
            return 'killed'
        if r.returncode:
            return 'killed'
    return 'survived'


def check(m, only):
    p = tree()
    apply(m, p)
    tried = m.setdefault('tried', [])
    for c in only or ORDER[m['file']].split():
        if c in tried:
            continue
        try:
            r = subprocess.run([sys.executable, 'run.py', c, '--jobs', os.environ.get('CJOBS', '4')], cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               env=dict(os.environ, PMV_REPO=p, VERIF_SEED='1', VERIF_TIER='quick'), timeout=900)
        except subprocess.TimeoutExpired:
            return 'timeout ' + c
        if r.returncode == 1:
            return 'caught ' + c
        if r.returncode:
            return 'broken ' + c
        tried.append(c)
    return 'missed'


def pool(items, fn, key, out, muts):
    lock = threading.Lock()
    it = iter(items)
    last = [time.time()]

    def work():
        while True:
            with lock:
                m = next(it, None)
            if m is None:
                return
            try:
                res = fn(m)
            except Exception as e:
                res = 'error %s' % e
            with lock:
                m[key] = res
                if time.time() - last[0] > 20:
                    last[0] = time.time()
                    json.dump(muts, open(out + '.tmp', 'w'), ensure_ascii=False, indent=0)
                    os.rename(out + '.tmp', out)
    ts = [threading.Thread(target=work) for _ in range(int(os.environ.get('JOBS', '3')))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    json.dump(muts, open(out, 'w'), ensure_ascii=False, indent=0)


if __name__ == '__main__':
    cmd, out = sys.argv[1:3]
    if cmd == 'list':
        make_list(out)
    else:
        muts = json.load(open(out))
        if cmd == 'tests':
            todo = [m for m in muts if 'tests' not in m]
            random.seed(2)
            random.shuffle(todo)
            pool(todo, test, 'tests', out, muts)
        else:
            todo = [m for m in muts if m.get('tests') == 'survived' and not str(m.get('checks', '')).startswith('caught')]
            pool(todo, lambda m: check(m, sys.argv[3:]), 'checks', out, muts)
        from collections import Counter
        print(Counter(str(m.get(cmd)).split()[0] for m in muts))
