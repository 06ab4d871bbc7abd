#!/usr/bin/env python3
"""P24: the experiment script evaluation/exp.py, run as it is with every input of bounded
spaces, the evaluation program replaced by a recorder (or not), the plotting library by one.
    experiments.py quick|thorough        experiments.py replay FILE
Needs numpy (python3-vt)."""
import bisect, glob, io, itertools, json, math, os, resource, runpy, shutil, signal, statistics, sys, tempfile, time, traceback, types
from decimal import Decimal, getcontext
from multiprocessing import Pool

sys.dont_write_bytecode = True
V = os.path.dirname(os.path.abspath(__file__))
EXP = os.environ.get('MC_EXP', '/repo/evaluation/exp.py')
getcontext().prec = 60


class Wrong(Exception):
    pass


class Late(BaseException):
    pass


def need(cond, msg):
    if not cond:
        raise Wrong(msg)


# ------------------------------------------------------------- the stand-in plotting library

class Line:
    def __init__(self, x, y, label):
        self.x, self.y, self.label = list(map(float, x)), list(map(float, y)), label

    def set_label(self, s):
        self.label = s

    def get_label(self):
        return self.label

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return lambda *a, **k: None


class Plots:
    def __init__(self):
        self.lines, self.bands, self.texts, self.shown = [], [], [], False


class Anything:
    """Accepts every call; notes what is drawn."""
    def __init__(self, rec):
        self._r = rec

    def plot(self, *a, **k):
        out, i, r = [], 0, self._r
        while i < len(a):
            x, y = a[i], a[i + 1]
            i += 2
            if i < len(a) and isinstance(a[i], str):
                i += 1
            out.append(Line(x, y, k.get('label')))
        r.lines += out
        return out

    semilogx = plot

    def errorbar(self, x, y, yerr=None, **k):
        l = Line(x, y, k.get('label'))
        self._r.lines.append(l)
        if yerr is not None:
            self._r.bands.append((l.x, [b - e for b, e in zip(l.y, yerr)], [b + e for b, e in zip(l.y, yerr)]))
        return l

    def fill_between(self, x, a, b, **k):
        self._r.bands.append(([float(v) for v in x], [float(v) for v in a], [float(v) for v in b]))

    def legend(self, *a, handles=None, labels=None, **k):
        if len(a) == 2:
            handles, labels = a
        elif len(a) == 1:
            labels = a[0]
        if labels is not None:
            for l, s in zip(handles if handles is not None else self._r.lines, labels):
                l.label = s
        return Anything(self._r)

    def title(self, s, *a, **k):
        self._r.texts.append(s)

    set_title = suptitle = title

    def show(self, *a, **k):
        self._r.shown = True

    def subplots(self, *a, **k):
        return self, self

    def gca(self, *a, **k):
        return self

    gcf = figure = add_subplot = axes = gca

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return lambda *a, **k: Anything(self._r)


def run_script(argv):
    """Exit status and what was drawn."""
    rec = Plots()
    plt = types.ModuleType('matplotlib.pyplot')
    api = Anything(rec)
    plt.__getattr__ = lambda name: getattr(api, name)
    mpl = types.ModuleType('matplotlib')
    mpl.pyplot = plt
    mpl.use = lambda *a, **k: None
    mpl.__getattr__ = lambda name: Anything(rec)
    sys.modules['matplotlib'], sys.modules['matplotlib.pyplot'] = mpl, plt
    old = sys.argv, sys.stdout, sys.stderr
    sys.argv, sys.stdout, sys.stderr = [EXP] + argv, io.StringIO(), io.StringIO()
    signal.alarm(120)
    try:
        runpy.run_path(EXP, run_name='__main__')
        rc = 0
    except SystemExit as e:
        rc = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
    except (KeyboardInterrupt, Late):
        raise
    except BaseException as e:
        rc = 1
        rec.error = repr(e)
    finally:
        signal.alarm(0)
        sys.argv, sys.stdout, sys.stderr = old
    return rc, rec


# ------------------------------------------------------------- the stand-in program

STANDIN = '''#!/bin/sh
f="$EXP_LOG/call.$$"
: > "$f"
for a in "$@"; do printf '%s\\0' "$a" >> "$f"; done
case "$EXP_RC" in
sig) kill -9 $$ ;;
*) exit "$EXP_RC" ;;
esac
'''
LONGS = {'gen': {'s': 'size', 'c': 'count', 'r': 'runs', 'o': 'output'},
         'run': {'t': 'type', 'm': 'mode', 'p': 'precision', 'i': 'input', 'r': 'runs', 'c': 'cardinalities', 'o': 'output'},
         '': {'j': 'jobs'}}


def parse(argv):
    """What the evaluation program understands: (subcommand, {option: [values]})"""
    sub, opt, key = '', {}, None
    for a in argv:
        if a.startswith('--'):
            key, eq, val = a[2:].partition('=')
            need(key in LONGS[sub].values(), f'the program has no option {a} here: {argv}')
            opt.setdefault(key, [])
            if eq:
                opt[key].append(val)
                key = None
        elif len(a) >= 2 and a[0] == '-' and a[1] in LONGS[sub]:
            key = LONGS[sub][a[1]]
            opt.setdefault(key, [])
            if len(a) > 2:
                opt[key].append(a[2:].lstrip('='))
                key = None
        elif key is not None and (key == 'input' or not opt[key]):
            opt[key].append(a)
        elif sub == '' and a in LONGS:
            sub, key = a, None
        else:
            raise Wrong(f'unexpected argument {a!r}: {argv}')
    return sub, opt


class Dir:
    def __enter__(self):
        os.makedirs(V + '/work', exist_ok=True)
        self.d = tempfile.mkdtemp(prefix='exp-', dir=V + '/work')
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def standin(d):
    exe = os.path.join(d, 'standin')
    with open(exe, 'w') as f:
        f.write(STANDIN)
    os.chmod(exe, 0o755)
    log = os.path.join(d, 'log')
    os.mkdir(log)
    return exe, log


def calls(log):
    out = []
    for f in sorted(os.listdir(log)):
        p = os.path.join(log, f)
        with open(p, 'rb') as h:
            out.append([a.decode() for a in h.read().split(b'\0')[:-1]])
        os.unlink(p)
    return out


def launch(exe, log, argv, rc, before, want_sub, want, free=()):
    """Run with the recorder; compare the one call of the program with what was asked."""
    os.environ['EXP_LOG'], os.environ['EXP_RC'] = log, rc
    st, rec = run_script(before + argv)
    cs = calls(log)
    why = getattr(rec, 'error', '')
    need(len(cs) == 1, f'the program was run {len(cs)} times {why}')
    if rc == '0':
        need(st == 0, f'exit status {st} though the program succeeded {why}')
    else:
        need(st != 0, f'exit status 0 though the program failed ({rc})')
    sub, opt = parse(cs[0])
    need(sub == want_sub, f'subcommand {sub!r}')
    for k, v in want.items():
        got = opt.pop(k, None)
        if k == 'input':
            need(got is not None and sorted(map(os.path.realpath, got)) == sorted(map(os.path.realpath, v)), f'input files {got}, expected {v}')
        elif k in ('output', 'cardinalities'):
            need(got is not None and [os.path.realpath(g) for g in got] == [os.path.realpath(v)], f'{k} is {got}, expected {v!r}')
        else:
            need(got == [v], f'{k} is {got}, expected {v!r}')
    for k in opt:
        need(k in free, f'the program is given {k}={opt[k]}, which was not asked for')


# ------------------------------------------------------------- case families
# A family is (name, list of points, function point -> number of comparisons). Functions run
# in worker processes and raise Wrong.

def choice(kv):
    """Every subset of options, in long and short spelling. kv: (option, short, value)."""
    for n in range(len(kv) + 1):
        for c in itertools.combinations(kv, n):
            yield c


def gens(th):
    for out in ['out', 'with space', 'a[1]', 'é']:
        for size in [None, '32', '64']:
            for count in [None, '1', '7', '123456']:
                for runs in [None, '1', '300']:
                    for jobs in [None, '1', '8']:
                        yield [out, size, count, runs, jobs, '0']
    for rc in ['1', '2', '101', '127', '255', 'sig']:
        for size in [None, '64']:
            yield ['out', size, '5', '2', None, rc]


def do_gen(pt):
    out, size, count, runs, jobs, rc = pt
    with Dir() as d:
        exe, log = standin(d)
        out = os.path.join(d, out)
        os.mkdir(out)
        n = 0
        for short in (False, True):
            before = [('-x' if short else '--exe'), exe]
            argv = ['prepare', '-t' if short else '--type', 'hashes']
            want, free = {'output': out}, set()
            for v, l, s in [(size, 'size', 's'), (count, 'count', 'c'), (runs, 'runs', 'r'), (jobs, 'jobs', 'j')]:
                if v is None:
                    free.add(l)
                    continue
                want[l] = v
                (before if l == 'jobs' else argv).extend([('-' + s) if short else '--' + l, v])
            launch(exe, log, argv + [out], rc, before, 'gen', want, free)
            n += len(want) + 1
        return n


NAMES = ['a.dat', 'b c.dat', '[x].dat', '1.dat', 'é*.dat', '-o.dat']
OTHERS = ['a.txt', 'dat', 'b.dat.bak', 'cardinalities.csv']
DIRS = ['in', 'with space', 'in[1]', 'in*', 'q?', 'é', '[', 'a/b', 'in/', './in']


def runs_(th):
    for dn in DIRS:
        for n in range(1, len(NAMES) + 1):
            for names in itertools.combinations(NAMES, n):
                yield [dn, list(names), 'hll', '14', '2', '0']
        yield [dn, ['f%d.dat' % i for i in range(300)], 'hllp', '5', None, '0']
    for ty in ['hll', 'hllp']:
        for p in [None] + [str(x) for x in range(4, 19)]:
            for jobs in [None, '1', '3', '16']:
                for rc in ['0', '1', 'sig', '101']:
                    yield ['in', NAMES[:2], ty, p, jobs, rc]


def do_run(pt):
    dn, names, ty, p, jobs, rc = pt
    with Dir() as d:
        exe, log = standin(d)
        base = d + '/' + dn
        # directories the name would match as a pattern
        for extra in ['in1', 'inx', 'qq', 'in']:
            os.makedirs(os.path.join(d, extra), exist_ok=True)
        os.makedirs(base, exist_ok=True)
        if dn.rstrip('/') not in ('in', './in'):
            for extra in ['in1', 'inx', 'qq']:
                open(os.path.join(d, extra, 'decoy.dat'), 'w').close()
        for f in names + OTHERS:
            open(os.path.join(base, f), 'w').close()
        out = os.path.join(d, 'out')
        os.mkdir(out)
        n = 0
        for short in (False, True):
            o = lambda l: '-' + l[0] if short else '--' + l
            before = ['-x' if short else '--exe', exe]
            argv = ['run', o('type'), ty, o('mode'), 'hashes', o('input'), base, o('output'), out]
            want, free = {'type': ty, 'mode': 'hashes', 'input': [os.path.join(base, f) for f in names], 'output': out}, set()
            for v, l, to in [(p, 'precision', argv), (jobs, 'jobs', before)]:
                if v is None:
                    free.add(l)
                else:
                    want[l] = v
                    to.extend([o(l), v])
            launch(exe, log, argv, rc, before, 'run', want, free)
            n += len(want) + 1
        return n


def cards(th):
    for ty in ['hll', 'hllp']:
        for p in [None, '4', '9', '16', '18']:
            for r in ['1', '2', '500']:
                for cf in ['cardinalities.dat', 'c d.dat', 'x[1]']:
                    for jobs in [None, '1', '8']:
                        for rc in ['0', '1', 'sig']:
                            yield [ty, p, r, cf, jobs, rc]


def do_card(pt):
    ty, p, r, cf, jobs, rc = pt
    with Dir() as d:
        exe, log = standin(d)
        cf = os.path.join(d, cf)
        with open(cf, 'w') as f:
            f.write('1\n2')
        out = os.path.join(d, 'out')
        os.mkdir(out)
        n = 0
        for short in (False, True):
            o = lambda l: '-' + l[0] if short else '--' + l
            before = ['-x' if short else '--exe', exe]
            argv = ['run', o('type'), ty, o('mode'), 'cardinalities', o('runs'), r, o('cardinalities'), cf, o('output'), out]
            want, free = {'type': ty, 'mode': 'cardinalities', 'runs': r, 'cardinalities': cf, 'output': out}, set()
            for v, l, to in [(p, 'precision', argv), (jobs, 'jobs', before)]:
                if v is None:
                    free.add(l)
                else:
                    want[l] = v
                    to.extend([o(l), v])
            launch(exe, log, argv, rc, before, 'run', want, free)
            n += len(want) + 1
        return n


SERIES = None


def series(upto):
    """Terms of the series 1.007^k: (exact value)."""
    global SERIES
    if SERIES is None:
        SERIES = [Decimal(1)]
    while SERIES[-1] < upto:
        SERIES.append(SERIES[-1] * Decimal('1.007'))
    return SERIES


def lists(th):
    top = 20000 if th else 3000
    ms = list(range(1, top + 1))
    x = top
    while x < 10 ** 13:
        x = int(x * (1.003 if th else 1.05)) + 1
        ms.append(x)
    for b in range(10, 43):
        ms += [2 ** b - 1, 2 ** b, 2 ** b + 1]
    for e in range(3, 13):
        ms += [10 ** e - 1, 10 ** e, 10 ** e + 1]
    for i in range(0, len(ms), 40):
        yield ms[i:i + 40]


def do_list(ms):
    n = 0
    with Dir() as d:
        for m in ms:
            for short in (False, True):
                out = os.path.join(d, 'l')
                os.makedirs(out)
                st, rec = run_script(['prepare', '-t' if short else '--type', 'cardinalities', '-a' if short else '--max-cardinality', str(m), out])
                need(st == 0, f'max cardinality {m}: exit status {st} {getattr(rec, "error", "")}')
                fs = os.listdir(out)
                need(fs == ['cardinalities.dat'], f'max cardinality {m}: files {fs}')
                with open(os.path.join(out, fs[0])) as f:
                    txt = f.read()
                shutil.rmtree(out)
                got = [int(x) for x in txt.rstrip('\n').split('\n')]
                s = series(Decimal(m) * 2)
                k = bisect.bisect_left(s, Decimal(m))
                e = Decimal('1e-10')
                # the last term may be decided by rounding
                good = False
                for last in {k, k + 1} if abs(s[k] - m) < m * e else {k}:
                    want = sorted({(int(t * (1 - e)), int(t * (1 + e))) for t in s[:last + 1]})
                    # terms on the edge between two integers may be one or the other
                    fixed = {a for a, b in want if a == b}
                    good = good or fixed <= set(got) and all(any(a <= g <= b for a, b in want[max(0, bisect.bisect_left(want, (g + 1,)) - 3):bisect.bisect_left(want, (g + 1,))]) for g in got) and all(any(a <= g <= b for g in got[max(0, bisect.bisect_left(got, a) - 1):bisect.bisect_left(got, a) + 2]) for a, b in want)
                need(good, f'max cardinality {m}: {len(got)} terms {got[:3]}..{got[-3:]}')
                need(all(a < b for a, b in zip(got, got[1:])) and got[0] == 1 and got[-1] >= m, f'max cardinality {m}: terms not increasing from 1 to the maximum')
                n += len(got)
    return n


# ---- plots

def table(cols):
    """Mean, median and deviation of the relative error of each row that some file has."""
    out = []
    for i in range(max(map(len, cols))):
        rows = [c[i] for c in cols if len(c) > i]
        err = [abs(e - n) / n for n, e in rows]
        mean = math.fsum(err) / len(err)
        out.append((rows[0][0], mean, statistics.median(err), math.sqrt(math.fsum((x - mean) ** 2 for x in err) / len(err))))
    return out


def same(a, b):
    return len(a) == len(b) and all(abs(x - y) <= 1e-9 * max(abs(x), abs(y)) + 1e-12 for x, y in zip(a, b))


def plotted(argv, want, what, impl, p):
    st, rec = run_script(argv)
    need(st == 0, f'{what}: exit status {st} {getattr(rec, "error", "")}')
    xs, means, meds, devs = map(list, zip(*want))
    for l in rec.lines:
        need(same(l.x, xs), f'{what}: drawn at {l.x}, expected {xs}')
    for name, ys in (('mean', means), ('median', meds)):
        ls = [l for l in rec.lines if str(l.label).lower() == name]
        need(len(ls) == 1, f'{what}: {len(ls)} lines labelled {name}')
        need(same(ls[0].y, ys), f'{what}: {name} drawn as {ls[0].y}, expected {ys}')
    lo, hi = [m - s for m, s in zip(means, devs)], [m + s for m, s in zip(means, devs)]
    need(any(same(b[0], xs) and same(b[1], lo) and same(b[2], hi) for b in rec.bands), f'{what}: band {rec.bands}, expected {lo} to {hi}')
    need(rec.shown, f'{what}: nothing shown')
    t = ' '.join(map(str, rec.texts))
    need(('HyperLogLog++' in t) == (impl == 'hllp') and 'HyperLogLog' in t, f'{what}: title {t!r} for {impl}')
    need(str(p) in t.replace('HyperLogLog++', ''), f'{what}: title {t!r} for precision {p}')
    return 4 * len(xs)


def plots(th):
    # every matrix of estimates: runs x cardinalities
    for runs, ns in [(1, [1, 2, 5]), (2, [1, 2]), (2, [3, 10, 11]), (3, [1, 7]), (3, [5]), (4, [5]), (5, [2])] + ([(4, [1, 7]), (6, [5]), (3, [1, 2, 1000])] if th else []):
        vals = [[n, n + 1, 0, 2 * n, 9 * n] if runs * len(ns) <= 4 else [n, n + 1, 0, 3 * n] for n in ns]
        cells = [vals[j] for _ in range(runs) for j in range(len(ns))]
        if len(cells) > 8:
            cells = [c[:3] for c in cells]
        k = max(2, len(cells) - 4)
        for block in itertools.product(*cells[:k]):
            yield ['matrix', runs, ns, list(block), cells[k:]]
    # long files, many files, big numbers
    for files, lines in [(1, 5000), (100, 50), (300, 3), (7, 1000), (17, 17)]:
        yield ['long', files, lines]
    # files of different lengths
    for lens in itertools.product(range(0, 4), repeat=3):
        if any(lens):
            yield ['ragged', list(lens)]
    for dn in DIRS:
        yield ['dir', dn]


def write(d, cols, end='\n'):
    for i, c in enumerate(cols):
        with open(os.path.join(d, 'r%d.dat' % i), 'w') as f:
            f.write('\n'.join('%d %d' % t for t in c) + (end if c else ''))


def do_plot(pt):
    n = 0
    with Dir() as d:
        def go(cols, k, sub='in', end='\n'):
            base = d + '/' + sub
            shutil.rmtree(base, ignore_errors=True)
            os.makedirs(base)
            write(base, cols, end)
            impl, mode, p = ('hll', 'hllp')[k & 1], ('hashes', 'cardinalities')[k >> 1 & 1], (None, 4, 10, 16)[k >> 2 & 3]
            short = k >> 4 & 1
            o = lambda l: '-' + l[0] if short else '--' + l
            argv = ['plot', o('type'), impl, o('mode'), mode]
            if p is not None:
                argv += [o('precision'), str(p)]
            if k & 32:
                argv += ['-a' if short else '--max-cardinality', '1000']
            return plotted(argv + [base], table([c for c in cols]), f'{cols if len(cols) * len(cols[0]) < 40 else "files"} {argv}', impl, 14 if p is None else p)
        if pt[0] == 'matrix':
            _, runs, ns, head, rest = pt
            for k, tail in enumerate(itertools.product(*rest)):
                es = head + list(tail)
                w = len(ns)
                n += go([[(ns[j], es[i * w + j]) for j in range(w)] for i in range(runs)], k, end='\n' if k & 64 else '')
        elif pt[0] == 'long':
            _, files, lines = pt
            for k in range(4):
                n += go([[(j * j + 1 if k < 2 else 10 ** 6 * (j + 1), (j * j + 1 if k < 2 else 10 ** 6 * (j + 1)) + (i * 7919 + j * 104729 + k) % 13 * (1 + j // 10)) for j in range(lines)] for i in range(files)], k)
        elif pt[0] == 'ragged':
            for k in range(4):
                n += go([[(j + 1, (j + 1) * (i + 1)) for j in range(l)] for i, l in enumerate(pt[1])], k)
        else:
            for extra in ['in1', 'inx', 'qq', 'in']:
                os.makedirs(os.path.join(d, extra))
                write(os.path.join(d, extra), [[(1, 9), (2, 9), (3, 9)]])
            for k in range(8):
                n += go([[(1, 2), (2, 2), (3, 5)], [(1, 1), (2, 3), (3, 3)]], k, sub=pt[1])
    return n


# ---- the whole experiment, with the real program

def whole(th):
    for ty in ['hll', 'hllp']:
        for p in [4, 7, 16]:
            for jobs in [1, 8]:
                for size in ['32', '64']:
                    yield ['hashes', ty, p, jobs, size, 'data[0]' if p == 7 else 'data']
                for mx in [1, 40, 2000]:
                    yield ['cardinalities', ty, p, jobs, mx, 'data']


def do_whole(pt):
    mode, ty, p, jobs, x, dn = pt
    exe = os.environ['MC_EVL']
    if mode == 'hashes' and (ty == 'hllp') != (x == '64'):
        return 0
    with Dir() as d:
        data, out = os.path.join(d, dn), os.path.join(d, 'est')
        os.mkdir(data)
        os.mkdir(out)
        g = ['-x', exe, '-j', str(jobs)]
        if mode == 'hashes':
            st, rec = run_script(g + ['prepare', '-t', 'hashes', '-s', x, '-c', '300', '-r', '12', data])
            need(st == 0, f'prepare: exit status {st} {getattr(rec, "error", "")}')
            need(len(os.listdir(data)) == 12, f'prepare: {len(os.listdir(data))} files')
            st, rec = run_script(g + ['run', '-t', ty, '-m', mode, '-p', str(p), '-i', data, '-o', out])
            rows, runs = 300, 12
        else:
            st, rec = run_script(g + ['prepare', '-t', mode, '-a', str(x), data])
            need(st == 0, f'prepare: exit status {st} {getattr(rec, "error", "")}')
            rows, runs = open(data + '/cardinalities.dat').read().strip().count('\n') + 1, 5
            st, rec = run_script(g + ['run', '-t', ty, '-m', mode, '-p', str(p), '-r', str(runs), '-c', data + '/cardinalities.dat', '-o', out])
        need(st == 0, f'run: exit status {st} {getattr(rec, "error", "")}')
        cols = [[tuple(map(int, l.split())) for l in open(os.path.join(out, f))] for f in os.listdir(out)]
        need(len(cols) == runs and all(len(c) == rows for c in cols), f'{len(cols)} files of {set(map(len, cols))} lines, expected {runs} of {rows}')
        return plotted(['plot', '-t', ty, '-m', mode, '-p', str(p), out], table(cols), 'plot', ty, p)


FAMILIES = {'prepare hashes': (gens, do_gen), 'run hashes': (runs_, do_run), 'run cardinalities': (cards, do_card),
            'prepare cardinalities': (lists, do_list), 'plot': (plots, do_plot), 'whole experiment': (whole, do_whole)}


def point(job):
    fam, pt = job
    try:
        return fam, pt, FAMILIES[fam][1](pt), None
    except (Wrong, Late) as e:
        return fam, pt, 1, str(e)
    except (ValueError, IndexError, OSError) as e:
        # what was written or drawn is not even of the right form
        return fam, pt, 1, repr(e)


def worker():
    def late(*a):
        raise Late('not finished within 120 s')
    signal.signal(signal.SIGALRM, late)
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))


def main():
    t0 = time.time()
    replay = sys.argv[1] == 'replay'
    if replay:
        rec = json.load(open(sys.argv[2]))
        tier, jobs = rec['tier'], [(rec['case'], rec['point'])]
    else:
        tier = sys.argv[1]
        jobs = [json.loads(j) for j in dict.fromkeys(json.dumps([f, pt]) for f, (g, _) in FAMILIES.items() for pt in g(tier == 'thorough'))]
    states, comps, bad, per, samples = 0, 0, [], {}, []
    for f in glob.glob(V + '/work/exp-*'):
        shutil.rmtree(f, ignore_errors=True)
    with Pool(8, worker) as pool:
        for fam, pt, n, err in pool.imap_unordered(point, jobs, chunksize=4):
            states += 1
            comps += n
            per[fam] = per.get(fam, 0) + 1
            if per[fam] == 3:
                samples.append(f'{fam}: {json.dumps(pt)[:160]}')
            if err:
                bad.append((fam, pt, err))
                if len(bad) >= 40:
                    pool.terminate()
                    break
    wall = time.time() - t0
    if replay:
        for b in bad:
            print(f'{b[0]} {b[1]}: {b[2]}')
            print(f'VIOLATION property=P24 replay={sys.argv[2]}')
        return 1 if bad else 0
    os.makedirs(V + '/evidence', exist_ok=True)
    json.dump({
        'property': 'P24', 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'model_checking',
        'coverage': {
            'states': states, 'transitions': comps, 'traces_validated_against_impl': states, 'evaluations': comps,
            'distinct_nontrivial': len(jobs),
            'rule': 'every point of the bounded spaces of option subsets, directory names, file sets, program outcomes, maximum cardinalities and matrices of estimates is one or more runs of the real script; distinct_nontrivial counts different points',
            'samples': samples, 'exhaustive': not bad, 'cases': len(jobs), 'measured': per},
        'assumptions': ['matplotlib is replaced by a recorder of what is drawn', 'except in the whole-experiment runs the evaluation program is replaced by a recorder of its arguments'],
        'wall_s': wall, 'violations': len(bad)}, open(V + '/evidence/P24.json', 'w'), indent=1)
    print(f'P24: points={states} comparisons={comps} {per} wall={wall:.1f}s')
    os.makedirs(V + '/replays', exist_ok=True)
    for i, (fam, pt, err) in enumerate(bad[:8]):
        path = f'{V}/replays/P24-{i}.json'
        json.dump({'property': 'P24', 'tier': tier, 'case': fam, 'point': pt, 'message': err,
                   'how_to_replay': f'cd /verif && ./check.sh replay {path}'}, open(path, 'w'), indent=1)
        print(f'{fam} {json.dumps(pt)[:200]}: {err[:600]}')
        print(f'VIOLATION property=P24 replay={path}')
    if comps == 0:
        print('ENGINE ERROR: nothing was explored')
        return 3
    return 1 if bad else 0


if __name__ == '__main__':
    try:
        sys.exit(main())
    except Exception as e:
        traceback.print_exc()
        print('ENGINE ERROR:', e)
        sys.exit(3)
