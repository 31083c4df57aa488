# -*- coding: utf-8 -*-
"""C23: the result type changes the wrapping only."""
import collections

from pmv import common as C
from pmv.engine import Check, Group, require, require_equal


def plain(x):
    """A methods stack as data: units are shown by their class."""
    if isinstance(x, tuple):
        return tuple(plain(y) for y in x)
    if isinstance(x, (str, int)):
        return x
    return type(x).__name__


def fields(p):
    return (p[0], str(p[1]), p[2], p[3], plain(p[4]))


_classes = []


def classes():
    if not _classes:
        from pymorphy2.analyzer import Parse

        class Mine(Parse):
            """Adds a method and overrides nothing."""
            def hello(self):
                return self.word + '!'

        class Sub(Mine):
            pass

        class Bare(collections.namedtuple('Bare', 'a b c d e')):
            pass
        _classes.extend([Parse, Mine, Sub, Bare])
    return _classes


class Env(C.Env):
    def __init__(self, path=None):
        import pymorphy2
        C.Env.__init__(self)
        Parse, Mine, Sub, Bare = classes()
        self.none = pymorphy2.MorphAnalyzer(result_type=None)
        self.mine = pymorphy2.MorphAnalyzer(result_type=Mine)
        self.mine2 = pymorphy2.MorphAnalyzer(result_type=Mine, probability_estimator_cls=None)
        self.sub = pymorphy2.MorphAnalyzer(result_type=Sub)
        self.bare = pymorphy2.MorphAnalyzer(result_type=Bare)


def same(default, none, wrapped, what, mine):
    """wrapped: [(class, parses)]"""
    want = [fields(p) for p in default]
    require_equal([fields(p) for p in none], want, '%s with result_type=None' % what)
    require(all(type(p) is tuple for p in none), '%s with result_type=None: %r', what, none)
    for cls, got in wrapped:
        require_equal([fields(p) for p in got], want, '%s with result_type=%s' % (what, cls.__name__))
        for p in got:
            require(isinstance(p, cls), '%s: %r is not a %s', what, p, cls.__name__)


def bound(p, morph):
    return getattr(p, '_morph', morph) is morph


def unbound(cls):
    return getattr(cls, '_morph', None) is None


def check_word(d, env, w, m=None):
    Parse, Mine, Sub, Bare = classes()
    m = m or env
    ps, pn, pm, pb, pu = m.morph.parse(w), m.none.parse(w), m.mine.parse(w), m.bare.parse(w), m.sub.parse(w)
    same(ps, pn, [(Parse, ps), (Mine, pm), (Bare, pb), (Sub, pu), (Mine, pu)], 'parse(%r)' % w, m)
    for x in (m.none, m.mine, m.bare, m.sub):
        require_equal([str(t) for t in x.tag(w)], [str(t) for t in m.morph.tag(w)], 'tag(%r)' % w)
        require_equal(x.normal_forms(w), m.morph.normal_forms(w), 'normal_forms(%r)' % w)
        require_equal(x.word_is_known(w), m.morph.word_is_known(w), 'word_is_known(%r)' % w)
    if not ps:
        return
    i = d.draw(min(len(ps), 4))
    lex = ps[i].lexeme
    same(lex, m.none.get_lexeme(pn[i]), [(Parse, lex), (Mine, m.mine.get_lexeme(pm[i])), (Mine, pm[i].lexeme), (Bare, m.bare.get_lexeme(pb[i])), (Sub, pu[i].lexeme)],
         'lexeme of %r' % (tuple(ps[i][:3]),), m)
    # a plain tuple is as good as a Parse
    require_equal([fields(p) for p in m.morph.get_lexeme(tuple(pn[i][:4]) + (ps[i].methods_stack,))], [fields(p) for p in lex], 'get_lexeme of a tuple')
    j = d.draw(len(lex))
    walk = [(ps[i], pm[i], pu[i])]
    walk.append((lex[j], pm[i].lexeme[j], pu[i].lexeme[j]))
    for a, b, c in walk:
        grs = set(d.sample(sorted(lex[d.draw(len(lex))].tag.grammemes), d.integer(0, 3)))
        n = d.integer(0, 30)
        for what, f in (('normalized', lambda x: x.normalized), ('inflect(%r)' % sorted(grs), lambda x: x.inflect(set(grs))),
                        ('make_agree_with_number(%d)' % n, lambda x: x.make_agree_with_number(n))):
            x, y, z = f(a), f(b), f(c)
            what = '%s of %r' % (what, tuple(a[:3]))
            if x is None:
                require(y is None and z is None, '%s: %r and %r', what, x, y)
                continue
            require(isinstance(x, Parse) and isinstance(y, Mine) and isinstance(z, Sub), '%s: types %s, %s, %s', what, type(x), type(y), type(z))
            require_equal(fields(y), fields(x), what)
            require_equal(fields(z), fields(x), what)
            require_equal(y.hello(), x.word + '!', what)
            # results are bound to the analyzer that made them
            require_equal([fields(p) for p in y.lexeme], [fields(p) for p in x.lexeme], 'lexeme of %s' % what)
            require(bound(y, m.mine) and bound(x, m.morph) and bound(z, m.sub), '%s belongs to another analyzer', what)
            require(all(bound(p, m.mine) and isinstance(p, Mine) for p in y.lexeme), 'lexeme of %s belongs to another analyzer', what)
            require_equal(y.is_known, x.is_known, 'is_known of %s' % what)
    require(unbound(Mine) and unbound(Parse) and unbound(Sub), 'the result class was changed')
    d.nontrivial(w)


def tokens(d, env):
    w = C.token(d, env)
    check_word(d, env, w)
    if d.chance(1, 4):
        # same class, other configuration
        ps = env.mine2.parse(w)
        require(all(bound(p, env.mine2) for p in ps), 'parse(%r): a result of another analyzer', w)
        require(all(bound(p.normalized, env.mine2) for p in ps[:3]), 'parse(%r): normalized is bound to another analyzer', w)


def iteration(d, env):
    """iter_known_word_parses"""
    Parse, Mine, Sub, Bare = classes()
    w = C.dict_word(d, env)
    k = d.integer(min(4, len(w)), len(w))
    prefix = w[:k]
    d.note('prefix', prefix)
    out = []
    for m in (env.morph, env.none, env.mine, env.bare, env.sub):
        ps = []
        for p in m.iter_known_word_parses(prefix):
            ps.append(p)
            if len(ps) >= 60:
                break
        out.append(ps)
    same(out[0], out[1], [(Parse, out[0]), (Mine, out[2]), (Bare, out[3]), (Sub, out[4])], 'iter_known_word_parses(%r)' % prefix, env)
    if not out[0]:
        return          # spelled without ё
    p = out[2][d.draw(len(out[2]))]
    q = out[0][out[2].index(p)]
    require_equal([fields(x) for x in p.lexeme], [fields(x) for x in q.lexeme], 'lexeme of %r' % (tuple(p[:3]),))
    require_equal(fields(p.normalized), fields(q.normalized), 'normalized %r' % (tuple(p[:3]),))
    d.nontrivial(prefix)


def right_type(p, cls):
    Parse, Mine, Sub, Bare = classes()
    if cls is tuple:
        return type(p) is tuple
    return isinstance(p, cls) and not any(isinstance(p, x) for x in (Mine, Sub, Bare) if not issubclass(cls, x))


def several(d, env):
    """Iterators of several analyzers, advanced in turn."""
    Parse, Mine, Sub, Bare = classes()
    pool = [(env.morph, Parse), (env.none, tuple), (env.mine, Mine), (env.sub, Sub), (env.bare, Bare), (env.mine2, Mine)]
    words = [C.dict_word(d, env) for _ in range(d.integer(1, 3))]
    rows = []
    for i in range(d.integer(2, 5)):
        m, cls = d.choice(pool)
        w = d.choice(words)
        prefix = w[:d.integer(min(3, len(w)), len(w))]
        rows.append((m, cls, prefix, m.iter_known_word_parses(prefix), []))
    d.note('iterators', [(pool.index((m, cls)), prefix) for m, cls, prefix, _, _ in rows])
    order = []
    for _ in range(d.integer(4, 24)):
        i = d.draw(len(rows))
        order.append(i)
        m, cls, prefix, it, seen = rows[i]
        p = next(it, None)
        if p is None:
            continue
        seen.append(fields(p))
        require(right_type(p, cls), 'an analyzer with result_type=%s gives %r while others iterate', cls.__name__, p)
        require(bound(p, m), '%r belongs to another analyzer', p)
        if d.chance(1, 4):
            w = d.choice(words)
            other = d.choice(pool)
            for x in other[0].parse(w):
                require(right_type(x, other[1]) and bound(x, other[0]), 'parse(%r): %r has another type or analyzer', w, x)
    for m, cls, prefix, it, seen in rows:
        want = []
        for p in env.none.iter_known_word_parses(prefix):
            if len(want) == len(seen):
                break
            want.append(fields(p))
        require_equal(seen, want, 'iter_known_word_parses(%r) while others iterate' % prefix)
    d.note('order', order)
    if sum(bool(r[4]) for r in rows) > 1:
        d.nontrivial(tuple(order))


def gendict(d, env):
    import pymorphy2
    Parse, Mine, Sub, Bare = classes()
    c = C.gen_case(d, env, probs=d.chance(1, 2))

    class M(object):
        morph = c.morph
        none = pymorphy2.MorphAnalyzer(path=c.path, result_type=None)
        mine = pymorphy2.MorphAnalyzer(path=c.path, result_type=Mine)
        sub = pymorphy2.MorphAnalyzer(path=c.path, result_type=Sub)
        bare = pymorphy2.MorphAnalyzer(path=c.path, result_type=Bare)
    for _ in range(8):
        check_word(d, None, C.gen_word(d, c), M)
    ps = list(c.morph.iter_known_word_parses())
    same(ps, list(M.none.iter_known_word_parses()), [(Mine, list(M.mine.iter_known_word_parses())), (Bare, list(M.bare.iter_known_word_parses()))],
         'iter_known_word_parses()', M)


_env = []


def setup():
    if not _env:
        _env.append(Env())
    return _env[0]


CHECK = Check(
    'C23', 'a case is a token (or a prefix) asked from analyzers with different result types: default, None, two subclasses of Parse and an unrelated named tuple; '
           'non-trivial: distinct tokens with analyses',
    [
        Group('tokens', tokens, 4000, 300000, setup, ('slow',)),
        Group('iteration', iteration, 1500, 60000, setup, ('slow',)),
        Group('several', several, 1500, 60000, setup, ('slow',)),
        Group('gendict', gendict, 120, 5000, C.GenEnv, ('fast',)),
    ])
