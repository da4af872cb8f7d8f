import json
import os
import subprocess
import sys
import unicodedata

import engine
from engine import workload
from ref.hashing import sha

PROP, LEVEL = 'C26', 'exploration'
FILES = ['mnemonic.py', 'misc.py']
RULE = ('fresh interpreters under several locales and encodings, UTF-8 mode on and off, other working '
        'directories, isolated and optimised modes, in which a random history of 3 to 12 list requests is '
        'made (good lists, the old Electrum list asked for as BIP39, missing files, repeats), each result '
        'compared with the pinned digest of that list; and files of '
        'other lists with comments, blank lines and words spelled in other forms, of 2048 and other numbers of words. Distinct by environment and history.')
REQUIRE = {'processes': 16, 'lists loaded': 60, 'refused': 20, 'environments': 6, 'other lists loaded': 20,
           'lists of other sizes refused': 80}
PIN = {
    'english.txt': (2048, '187db04a869dd9bc7be80d21a86497d692c0db6abd3aa8cb6be5d618ff757fae'),
    'spanish.txt': (2048, '2f06d28020d49115a2e502fb6042aaa593e90773edb947685482d05ee2af6a03'),
    'japanese.txt': (2048, 'a3c2aa5c689341519e8a579e28d2956910313e372b04cf0f31baef40dc44d69c'),
    'chinese_simplified.txt':
        (2048, '106cc8387ac3fc7d44ca1072e30a0b27ed017b1d377501bb909c2833ef60c186'),
    'old': (1626, 'b329cea782bdd8b1de49bbb9fbdef9e8230e15eb08f0d7952613992246c38f96'),
}
NAMES = [n for n in PIN if n != 'old']

CHILD = r'''
import json, sys
sys.dont_write_bytecode = True
repo, history = json.loads(sys.argv[1])
sys.path.insert(0, repo)
from bitcoinx import Wordlists
out = []
for kind in history:
    try:
        if kind == 'old':
            words = Wordlists.original_electrum_wordlist()
        else:
            words = Wordlists.bip39_wordlist(kind)
        out.append(list(words))
    except Exception as e:
        out.append([None, type(e).__name__, str(e)])
sys.stdout.write(json.dumps(out))
'''

ENVS = [
    {},
    {'LC_ALL': 'C', 'PYTHONCOERCECLOCALE': '0', 'PYTHONUTF8': '0'},
    {'LC_ALL': 'POSIX', 'PYTHONCOERCECLOCALE': '0', 'PYTHONUTF8': '0', 'PYTHONIOENCODING': 'latin-1'},
    {'LANG': 'en_US.ISO-8859-1', 'PYTHONCOERCECLOCALE': '0', 'PYTHONUTF8': '0'},
    {'LC_ALL': 'C.UTF-8'},
    {'LC_ALL': 'tr_TR.UTF-8', 'LANG': 'tr_TR.UTF-8'},
    {'PYTHONUTF8': '1'},
    {'LC_ALL': 'C', 'PYTHONUTF8': '1'},
]
OPTIONS = [[], ['-O'], ['-OO'], ['-I'], ['-X', 'dev'], ['-B']]


@workload(48, 800)
def histories(ctx, rng, i):
    env = ENVS[i % len(ENVS)]
    options = rng.choice(OPTIONS)
    cwd = rng.choice(['/', ctx.tmp, engine.REPO])
    if rng.random() < .3:         # decoys in the working directory
        cwd = os.path.join(ctx.tmp, f'cwd{i}')
        os.makedirs(os.path.join(cwd, 'data'))
        for name in NAMES + ['electrum_old.txt']:
            for d in (cwd, os.path.join(cwd, 'data')):
                with open(os.path.join(d, name), 'w') as f:
                    f.write('decoy\n' * 2048)
    history = rng.choices(NAMES + ['old', 'old', 'electrum_old.txt', 'missing.txt'],
                          k=rng.randrange(3, 13))
    full = dict(env, PATH=os.environ.get('PATH', ''), PYTHONDONTWRITEBYTECODE='1')
    ctx.seen('environments', tuple(sorted(env.items())))
    ctx.case((tuple(sorted(env.items())), tuple(options), tuple(history), cwd))
    r = subprocess.run([sys.executable, *options, '-W', 'ignore', '-c', CHILD,
                        json.dumps([engine.REPO, history])], env=full, cwd=cwd, capture_output=True)
    ctx.n('processes')
    if r.returncode:
        ctx.fail('process failed', f'{env} {options} {history}: {r.stderr.decode()[-1500:]}')
    results = json.loads(r.stdout)
    ctx.eq(len(results), len(history), 'results')
    for kind, words in zip(history, results):
        if kind not in PIN:
            ctx.n('refused')
            ctx.ok(words[0] is None, 'list not refused', kind, history, len(words))
            continue
        if words and words[0] is None:
            ctx.fail('list not loaded', f'{kind} {words} after {history} under {env} {options}')
        ctx.n('lists loaded')
        judge(ctx, kind, words, history, env)
    ctx.sample(env=env, options=options, history=history, cwd=cwd)


def judge(ctx, kind, words, *info):
    count, digest = PIN[kind]
    ctx.eq(len(words), count, 'number of words', kind, *info)
    ctx.eq(len(set(words)), count, 'distinct words', kind, *info)
    for w in words:
        if unicodedata.normalize('NFKD', w) != w or w.lower() != w or not w or w.split() != [w]:
            ctx.fail('word not normalized', f'{kind} {w!r}')
    ctx.eq(sha('\n'.join(words).encode()).hex(), digest, 'sequence of words', kind, *info)


@workload(40, 400)
def in_process(ctx, rng, i):
    '''Longer histories in one process, which keeps its cache from case to case.'''
    from bitcoinx import Wordlists
    for _ in range(30):
        kind = rng.choice(NAMES + ['old', 'electrum_old.txt', 'missing.txt'])
        ctx.case((i, kind))
        if kind == 'old':
            judge(ctx, kind, Wordlists.original_electrum_wordlist())
        elif kind in PIN:
            judge(ctx, kind, Wordlists.bip39_wordlist(kind))
        else:
            ctx.n('refused')
            ctx.raises(Exception, 'list not refused', Wordlists.bip39_wordlist, kind)


def list_text(rng, count):
    '''Text of a list of so many words, with what is not significant in it; and the words.'''
    letters = 'abcdefghijklmnopqrstuvwxyz\u00e9\u00f1\u00fc\u00df\u03c2\u304c\u30d0\u7684'
    words, lines = [], []
    for n in range(count):
        word = rng.choice(letters) + rng.choice(letters) + f'{n:x}'
        words.append(unicodedata.normalize('NFKD', word))
        k = rng.randrange(40)
        if k == 0:
            lines.append(rng.choice(['', '   ', '\t']))
        elif k == 1:
            lines.append(rng.choice(['# a comment', '#', '  # indented', '#' + word, '# x y z']))
        form = unicodedata.normalize(rng.choice(['NFC', 'NFD', 'NFKC', 'NFKD']), word)
        if rng.random() < .1 and form.upper().lower() == form:
            form = form.upper()
        lines.append(rng.choice(['', '', '', ' ', '\t']) + form + rng.choice(['', '', '', '  ', '\t']))
    end = rng.choice(['\n', '\n', '\r\n'])
    return end.join(lines) + rng.choice(['', end, end * 3]), words


@workload(96, 2400)
def other_files(ctx, rng, i):
    '''Lists in other files: taken exactly when they have 2048 words.'''
    from bitcoinx import Wordlists
    count = [2048, 2047, 2049, 2048, 0, 1, 1626, 2048, 4096, 1024, 2050, 2048 + rng.randrange(3, 3000),
             rng.randrange(2047), 2048, 2560, 3072][i % 16]
    text, words = list_text(rng, count)
    spaced = count == 2048 and rng.random() < .3
    if spaced:
        lines = text.split('\n')
        k = rng.choice([k for k, line in enumerate(lines) if line.strip() and line.strip()[0] != '#'])
        lines[k] = 'two words'
        text = '\n'.join(lines)
    path = os.path.join(ctx.tmp, f'list{i}-{rng.randrange(1 << 30)}.txt')
    with open(path, 'w', encoding='utf-8', newline='') as f:
        f.write(text)
    ctx.case(text)
    for _ in range(2):
        if count == 2048 and not spaced:
            got = Wordlists.bip39_wordlist(path)
            ctx.n('other lists loaded')
            ctx.eq(len(got), 2048, 'number of words')
            ctx.eq(list(got), words, 'words of another file', [(a, b) for a, b in zip(got, words) if a != b][:3])
        else:
            ctx.n('refused')
            ctx.n('lists of other sizes refused', not spaced)
            ctx.raises(SyntaxError, 'list of another size not refused', Wordlists.bip39_wordlist, path)
    os.unlink(path)
