"""Builds data/ru_words.txt: a stratified sample of the Russian dictionary.

Run once with the slow venv; the result is committed (it only seeds generators,
the oracles read the dictionary itself)."""
import sys, random, collections
sys.path.insert(0, '/verif')
from pmv.refmodel import RawDict
import pymorphy2_dicts_ru, pymorphy2_dicts

raw = RawDict(pymorphy2_dicts_ru.get_path())
R = random.Random(20240101)
per_form = {}
count = collections.Counter()
short = set()
uni = []
cand = collections.defaultdict(list)
for n, (w, v) in enumerate(raw.words.iteritems('')):
    para, idx = v
    c = cand[para]
    count[para] += 1
    # reservoir of 9 per paradigm
    if len(c) < 9:
        c.append(w)
    else:
        k = R.randrange(count[para])
        if k < 9:
            c[k] = w
    if len(w) <= 3:
        short.add(w)
    if R.randrange(250) == 0:
        uni.append(w)
words = set(short)
for para, c in cand.items():
    words.update(c)
words.update(uni)
closed = set()
for w, (para, idx) in raw.words.iteritems(''):
    tag = raw.paradigm(para)[idx][1]
    if tag[:4] in ('NUMR', 'NPRO', 'PRED', 'PREP', 'CONJ', 'PRCL', 'INTJ', 'COMP', 'GRND') or 'Apro' in tag:
        if tag[:4] in ('COMP', 'GRND') and R.randrange(60):
            continue
        closed.add(w)
words.update(closed)
hy = [w for w in raw.words.keys('по') if '-' in w]
probs = sorted(set(k.rsplit(':', 1)[0] for k in raw._probs.keys()))
words.update(R.sample(probs, 6000))
words = sorted(words)
with open('/verif/data/ru_words.txt', 'w', encoding='utf8') as f:
    f.write('\n'.join(words) + '\n')
print(len(words), len(short), len(uni), len(closed), len(probs), len(cand))
