"""U01: text drawings of pregroup diagrams."""
from vsym.case import Suite
from vsym.strs import SymStr, instrumented, sstr

from lambeq.backend.drawing import text_printer as real
from lambeq.backend.grammar import (Box, Cap, Cup, Diagram, Id, Spider, Swap,
                                    Ty, Word)

SUITE = Suite(
    'U01',
    bounds='pregroup diagrams of 1 to 3 words with up to 5 (quick) / 6 '
    'wires, and any sequence of up to 3 / 5 cups and swaps; symbolic words '
    'of 1 to 7 characters, types of 1 to 6 characters; all separators, '
    'character sets, layouts and spacings of 1 to 3',
    assumptions=['characters take one column each'],
    outside='larger diagrams; matplotlib and TikZ drawings')

MOD = 'lambeq.backend.drawing.text_printer'


def printer(ctx, **kw):
    m = instrumented(MOD) if ctx.symbolic else real
    return m.PregroupTextPrinter(**kw)


def pairs(k):
    """All partial matchings of k wires."""
    def go(rest, acc):
        if not rest:
            yield tuple(acc)
            return
        a, *more = rest
        yield from go(more, acc)
        for i, b in enumerate(more):
            yield from go(more[:i] + more[i + 1:], acc + [(a, b)])
    return list(go(list(range(k)), []))


BASE = {'short': ['n', 's'], 'mixed': ['np', 'n', 'conj', 's'],
        'long': ['punc', 'conj', 'np']}


def types(k, m, base):
    names = BASE[base]
    tys = [Ty(names[i % len(names)]) for i in range(k)]
    for x, (i, j) in enumerate(m):
        t = tys[i] if x % 2 else tys[i].l
        tys[i], tys[j] = t, t.r
    return tys


def build(ctx, sizes, m, base, steps, lens):
    owners = [i for i, s in enumerate(sizes) for _ in range(s)]
    k = len(owners)
    tys = types(k, m, base)
    d = Id()
    ws = []
    for i in range(len(sizes)):
        n = ctx.small(f'len{i}', *lens[i])
        w = sstr(ctx, f'w{i}', n, 'ab')
        ws.append(w)
        t = Ty().tensor(*[t for t, o in zip(tys, owners) if o == i]) \
            if i in owners else Ty()
        d = d @ Word(w, t)
    scan = list(range(k))
    ops = []
    for x in range(steps):
        opts = [None] + [('swap', i) for i in range(len(scan) - 1)]
        opts += [('cup', i) for i in range(len(scan) - 1)
                 if (scan[i], scan[i + 1]) in m]
        op = ctx.choose(f'op{x}', opts)
        if op is None:
            break
        kind, i = op
        a, b = d.cod[i:i + 1], d.cod[i + 1:i + 2]
        ops.append(op)
        if kind == 'swap':
            d = d >> Id(d.cod[:i]) @ Swap(a, b) @ Id(d.cod[i + 2:])
            scan[i], scan[i + 1] = scan[i + 1], scan[i]
        else:
            d = d >> Id(d.cod[:i]) @ Cup(a, b) @ Id(d.cod[i + 2:])
            del scan[i:i + 2]
    return d, ws, owners, tys, ops


def chars(line, n=None):
    out = list(line.items) if isinstance(line, SymStr) else list(line)
    return out + [' '] * (n - len(out)) if n else out


UNI = dict(bar='│', l0='╰', r0='╯', t1='╭', t0='╮', line='─', dot='·')
ASC = dict(bar='|', l0='\\', r0='/', t1='\xa0', t0='\xa0', line='_', dot=' ')


@SUITE.case(quick=lambda: cases('quick'), thorough=lambda: cases('thorough'),
            max_witness=1)
def drawing(ctx, sizes, m, base, steps, lens, opt):
    """The drawing shows the words, their types and the wiring."""
    spacing, at, compress, ascii_ = opt
    d, ws, owners, tys, ops = build(ctx, sizes, m, base, steps, lens)
    kw = dict(word_spacing=spacing, use_at_separator=at,
              compress_layers=compress, use_ascii=ascii_)
    text = printer(ctx, **kw).diagram2str(d)
    c = ASC if ascii_ else UNI
    check(ctx, text, d, ws, sizes, owners, tys, ops, spacing,
          ' @ ' if at else c['dot'], c)


def check(ctx, text, d, ws, sizes, owners, tys, ops, spacing, sep, c):
    lines = text.split('\n')
    ctx.check(len(lines) >= 3, 'three lines for the words')
    top, under, tline, *rows = lines
    # fields: widths of the underlines
    fields = []
    strs = []
    col = 0
    for i in range(len(sizes)):
        ts = [str(t) for t, o in zip(tys, owners) if o == i]
        strs.append(ts)
        w = max(len(ws[i]), len(sep.join(ts)))
        fields.append((col, w))
        col += w + spacing
    want = ''
    for i, (a, w) in enumerate(fields):
        want = want.ljust(a) + c['line'] * w
    ctx.check(under == want, 'underlines')
    total = len(want)
    topc, tyc = chars(top, total), chars(tline, total)
    ctx.check(len(topc) == total and len(tyc) == total, 'lengths')
    used = set()
    cols = []
    for i, (a, w) in enumerate(fields):
        # the word is somewhere in its field
        n = len(ws[i])
        wc = chars(ws[i])
        pad = w - n
        ok = False
        for off in {pad // 2, (pad + 1) // 2}:
            seg = topc[a + off:a + off + n]
            if seg == wc and all(x == ' ' for x in topc[a:a + off]
                                 + topc[a + off + n:a + w]):
                ok = True
        ctx.check(ok, 'word in its field')
        full = sep.join(strs[i])
        line = ''.join(tyc[a:a + w])
        if full:
            off = line.find(full)
            pad = w - len(full)
            ctx.check(off in (pad // 2, (pad + 1) // 2)
                      and line.strip() == full, 'types below the word')
            x = a + off
            for t in strs[i]:
                cols.append((x, x + len(t)))
                x += len(t) + len(sep)
    # the wires below
    width = max([total] + [len(r) for r in rows])
    rows = [r.ljust(width) for r in rows]
    scan = []           # current wires: (column, wire)
    joined = set()
    y = 0
    for i, (lo, hi) in enumerate(cols):
        scan.append([None, i])
    while y < len(rows):
        r = rows[y]
        h = 1
        x = 0
        pos = 0
        new = []
        if not r.strip():
            ctx.check(not scan, 'wires are drawn to the end')
            y += 1
            continue
        swaps = []
        while x < width:
            ch = r[x]
            if ch == ' ':
                x += 1
                continue
            ctx.check(pos < len(scan), 'no other lines')
            at(ctx, scan[pos], x, cols)
            if ch == c['bar']:
                new.append([x, scan[pos][1]])
                pos += 1
                x += 1
                continue
            ctx.check(ch == c['l0'], 'start of a cup or swap')
            end = r.find(c['r0'], x + 1)
            ctx.check(end > 0 and pos + 1 < len(scan), 'end')
            at(ctx, scan[pos + 1], end, cols)
            inner = r[x + 1:end]
            if set(inner) <= {c['line']}:
                joined.add((scan[pos][1], scan[pos + 1][1]))
            else:
                ctx.check(inner.count(c['t0']) == 1
                          and set(inner) == {c['t0'], c['line']}
                          or inner == c['t0'], 'upper half of a swap')
                h = 2
                swaps.append((x, end, x + 1 + inner.index(c['t0'])))
                new.append([x, scan[pos + 1][1]])
                new.append([end, scan[pos][1]])
            pos += 2
            x = end + 1
        ctx.check(pos == len(scan), 'all wires are drawn')
        if h == 2:
            ctx.check(y + 1 < len(rows), 'lower half')
            low = [' '] * width
            for x, _ in new:
                low[x] = c['bar']
            for a, b, mid in swaps:
                low[a:b + 1] = [c['t1']] + [c['line']] * (b - a - 1) \
                    + [c['t0']]
                low[mid] = c['l0']
            ctx.check(rows[y + 1] == ''.join(low), 'lower half of the swaps')
        scan = new
        y += h
    # compare with the diagram
    want_scan = list(range(len(cols)))
    want_cups = set()
    for kind, i in ops:
        if kind == 'swap':
            want_scan[i], want_scan[i + 1] = want_scan[i + 1], want_scan[i]
        else:
            want_cups.add((want_scan[i], want_scan[i + 1]))
            del want_scan[i:i + 2]
    ctx.check(joined == want_cups, 'cups')
    ctx.check([w for _, w in scan] == want_scan, 'free wires')


def at(ctx, wire, x, cols):
    """A wire stays in its column, which is below its type."""
    col, i = wire
    if col is None:
        lo, hi = cols[i]
        ctx.check(lo <= x < hi, 'wires start below their types')
    else:
        ctx.check(x == col, 'wires stay in their columns')


OPTS = [(2, False, True, False), (1, True, False, True),
        (3, False, False, False), (1, False, True, True),
        (2, True, True, False)]


def cases(tier):
    out = []
    n = 0
    for sizes in [(1,), (2,), (3,), (4,)]:
        for m in pairs(sum(sizes)):
            for base in BASE:
                n += 1
                out.append(dict(sizes=sizes, m=m, base=base, steps=2,
                                lens=((1, 12),), opt=OPTS[n % 5]))
    two = [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (0, 2), (2, 3)]
    three = [(1, 3, 1), (1, 1, 1), (2, 0, 2), (1, 2, 1)]
    for sizes in two + three:
        k = sum(sizes)
        ms = pairs(k)
        if tier != 'thorough' and len(ms) > 5:
            ms = ms[-1::-(len(ms) // 5)]
        for m in ms:
            n += 1
            lens = [(4, 5)] * len(sizes)
            lens[n % len(sizes)] = (1, 7)
            opts = OPTS if tier == 'thorough' else [OPTS[n % 5], OPTS[0]]
            for j, opt in enumerate(opts):
                base = list(BASE)[(n + j) % 3]
                # any words, few morphisms; fixed words, more morphisms
                out.append(dict(sizes=sizes, m=m, base=base,
                                steps=2 if k < 4 else 1, lens=tuple(lens),
                                opt=opt))
                out.append(dict(sizes=sizes, m=m, base=base, steps=3,
                                lens=((4, 4),) * len(sizes), opt=opt))
    # deeper morphisms under fixed words
    for sizes in [(2, 3), (1, 3, 1), (3, 3)] + (
            [(2, 2, 2)] if tier == 'thorough' else []):
        k = sum(sizes)
        for m in [tuple((i, k - 1 - i) for i in range(k // 2)),
                  tuple((i, i + 1) for i in range(0, k - 1, 2))]:
            for opt in OPTS[:2]:
                crossing = m and m[0] == (0, 1)
                out.append(dict(sizes=sizes, m=m, base='mixed',
                                steps=(5 if k < 6 or not crossing else 4)
                                if tier == 'thorough' else
                                3 if crossing else 4,
                                lens=((3, 3),) * len(sizes), opt=opt))
    return out


@SUITE.case(quick=[dict()])
def refused(ctx):
    """Other diagrams are refused."""
    n = Ty('n')
    kind = ctx.choose('kind', ['box', 'cap', 'dom', 'late', 'spider', 'left'])
    w = Word('w', n @ n.r)
    d = {'box': w >> Box('f', n, n) @ Id(n.r),
         'cap': w >> Id(n) @ Cap(n.r, n) @ Id(n.r),
         'dom': Cup(n, n.r).to_diagram(),
         'late': (w >> Cup(n, n.r)) @ w,
         'spider': w >> Spider(n, 1, 2) @ Id(n.r),
         'left': Word('v', n) >> w @ Id(n)}[kind]
    ctx.check(not d.is_pregroup, 'not a pregroup diagram')
    try:
        printer(ctx).diagram2str(d)
        ctx.fail('drawn')
    except ValueError:
        pass
    try:
        d.render_as_str()
        ctx.fail('drawn')
    except NotImplementedError:
        pass
    ok = w @ w >> Id(n) @ Swap(n.r, n) @ Id(n.r)
    for kw in (dict(), dict(word_spacing=3, use_at_separator=True,
                            compress_layers=False, use_ascii=True)):
        ctx.check(ok.render_as_str(**kw) == real.PregroupTextPrinter(
            **kw).diagram2str(ok), 'options')
