# -*- coding: utf-8 -*-
"""C08: lexemes are coherent."""
from pmv import common as C
from pmv.engine import Check, Discard, Group, require, require_equal


def coherent(d, morph, ref, w, limit=5, deep=True):
    pairs = C.model_case(None, w, scores=True, morph=morph, ref=ref)
    step = max(1, len(pairs) // limit)
    for p, r in pairs[::step][:limit + 1]:
        lexeme = p.lexeme
        triples = C.lexeme_list(lexeme)
        if r.has_both():
            d.label('two inflected halves')     # C39
            continue
        require_equal(triples, C.ref_list(ref.lexeme(r)), 'lexeme of %r' % (tuple(p[:3]),))
        require_equal(C.lexeme_list(morph.get_lexeme(p)), triples, 'get_lexeme and .lexeme')
        require((p.word, str(p.tag)) in [(t[0], t[1]) for t in triples], 'the lexeme of %r does not contain it', p)
        require(all(t[2] == p.normal_form for t in triples), 'normal forms in the lexeme of %r: %r', p, triples[:5])
        require_equal([f.normal_form for f in lexeme][0], p.normal_form, 'normal form')
        if len(lexeme) > 1:
            d.nontrivial((w, p.word, str(p.tag)))
            d.label('kind:' + '+'.join(r.kinds()))
        if deep:
            # every form has the same lexeme
            for f in (lexeme[0], lexeme[-1], lexeme[d.draw(len(lexeme))]):
                require_equal(C.lexeme_list(f.lexeme), triples, 'lexeme of %r from the lexeme of %r' % (
                    tuple(f[:3]), tuple(p[:3])))


def words(d, env):
    coherent(d, env.morph, env.ref, C.any_word(d, env))


def closure(d, env):
    """Dictionary words: each form of the lexeme is found by parsing it."""
    w = C.dict_word(d, env)
    d.note('word', w)
    for p, r in C.model_case(env, w)[:3]:
        if r.deriv[0] != 'dict' or r.sig[0][0] != 'dict':
            continue
        lexeme = p.lexeme
        triples = C.lexeme_list(lexeme)
        picked = [lexeme[d.draw(len(lexeme))] for _ in range(4)]
        for f in picked:
            if f.word.count('е') > 9:
                continue
            found = [q for q in env.morph.parse(f.word) if C.ptuple(q) == C.ptuple(f)]
            require(found, 'parse(%r) does not find %r, a form of %r', f.word, f[:3], p[:3])
            require(any(C.lexeme_list(q.lexeme) == triples for q in found),
                    'the analyses of %r do not have the lexeme of %r', f[:3], p[:3])
        if len(lexeme) > 1:
            d.nontrivial((w, str(p.tag)))


def derived(d, env):
    """Adding the same part to a word adds it to its lexeme."""
    w = C.plain_word(d, env)
    if C.too_many_e(w) or len(w) < 3:
        raise Discard()
    base = env.morph.parse(w)
    k = d.draw(3)
    if k == 0:
        pre, post = d.choice(['псевдо', 'экс-', 'супер', 'авто', 'анти', 'не']), ''
    elif k == 1:
        pre, post = '', d.choice(['-то', '-ка', '-таки', '-де'])
    else:
        pre, post = d.choice(['бизнес-', 'ааа-', 'ъъ-']), ''    # none starts with a known prefix
    new = pre + w + post
    if env.ref.dict_parses(new) or len([x for x in env.ref.known_prefixes if new.startswith(x)]) > 1:
        raise Discard()
    d.note('word', new)
    got = env.morph.parse(new)
    known = set()
    for p in got:
        if p.word.startswith(pre) and p.word.endswith(post):
            core = (p.word[len(pre):len(p.word) - len(post)], str(p.tag))
            lex = tuple(sorted((f.word, str(f.tag), f.normal_form) for f in p.lexeme))
            known.add((core, lex))
    n = 0
    for b in base[:4]:
        if k == 0 and not b.tag.is_productive():
            continue
        if k == 2 and b.tag.POS is None:
            continue
        if [p for p in env.ref.parse(new) if p.kinds()[0] not in (('prefix',), ('particle',), ('fixedleft', 'both'))[k]]:
            continue            # another rule comes first
        lex = tuple(sorted((pre + f.word + post, str(f.tag), pre + f.normal_form + post) for f in b.lexeme))
        core = (b.word, str(b.tag))
        require((core, lex) in known, 'no analysis of %r has the lexeme of %r with %r added', new, tuple(b[:3]), pre or post)
        n += 1
    if n:
        d.nontrivial(new)


def tokens(d, env):
    coherent(d, env.morph, env.ref, C.token(d, env), limit=3)


def gendict(d, env):
    c = C.gen_case(d, env, probs=d.chance(1, 4), big=d.chance(1, 2))
    for _ in range(15):
        coherent(d, c.morph, c.ref, C.gen_word(d, c), limit=4)
    # the lexemes of the source are lexemes of the analyses
    for forms in c.lexemes[:6]:
        normal = forms[0][0]
        want = [(w, t, normal) for w, t in forms]
        w, t = forms[d.draw(len(forms))]
        if C.too_many_e(w):
            continue
        cand = [p for p in c.morph.parse(w) if C.ptuple(p) == (w, t, normal)]
        require(any(C.lexeme_list(p.lexeme) == want for p in cand), 'no analysis of %r has the lexeme %r', w, forms)
        d.nontrivial()


CHECK = Check(
    'C08', 'a case is a token (all kinds of analyses), a dictionary word with forms of its lexeme parsed again, or a generated '
           'dictionary; non-trivial: a lexeme of two or more forms (distinct by token, word and tag)',
    [
        Group('words', words, 3500, 300000, C.real_env, ('slow', 'fast')),
        Group('closure', closure, 2500, 200000, C.real_env, ('slow',)),
        Group('derived', derived, 2500, 150000, C.real_env, ('slow',)),
        Group('tokens', tokens, 1500, 100000, C.real_env, ('slow',)),
        Group('gendict', gendict, 200, 8000, C.GenEnv, ('fast',)),
    ])
