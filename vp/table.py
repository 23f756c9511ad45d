"""Which goals decide which property, and which goals prove the contract a caller relies on."""
import functools, re
from proofs import *
import preds, tables, lemmas, trims, splits


@functools.lru_cache(None)
def group(name):
    k = name.split(':')
    if k[0] == 'conv':
        w = int(k[1])
        return sum((conv(*c) + conv_s(*c) for c in CONVS if c[1] == w), [])
    if k[0] == 'decode':
        return decode_goal()
    if k[0] == 'is':
        fn = k[1]
        g = []
        for t in range(6):
            g += [is_goal(fn, t), is_goal(fn, t, True), is_goal(fn, t, True, 's')]
        g += [is_invalid(fn), is_invalid(fn, 's'), is_null(fn)]
        for kd in ('pt', 'st'):
            g += [is_wrap(fn, kd, t) for t in range(7)]
        g += [is_wrap(fn, kd) for kd in ('d', 'sd', 'pp', 'sp')]
        return g
    if k[0] == 'count':
        return sum((count_goal(w) for w in (1, 2, 4)), [])
    if k[0] == 'len':
        return [count_len(w) for w in (1, 2, 4)] + [isutf8_len(), isutf8_len(True, False)]
    if k[0] == 'lenreads':
        return [count_len(w, False) for w in (1, 2, 4)] + [isutf8_len(False)]
    if k[0] == 'codepage':
        return codepage_goals()
    if k[0] == 'lower':
        return lower_goals()
    if k[0] == 'wide':
        return wide_goals()
    if k[0] == 'trim':
        return trims.trim_goals()
    if k[0] == 'split':
        return splits.split_goals()
    if k[0] == 'join':
        return splits.join_goals()
    if k[0] == 'class':
        return tables.class_goals(int(k[1]))
    if k[0] == 'lowertab':
        return tables.table_goals(int(k[1]))
    if k[0] == 'pred':
        return preds.pred_goals(k[1:] == ['one'])
    if k[0] == 'ispred':
        fn = k[1]
        return [is_goal(fn, t, True, kd) for t in range(6) for kd in 'ps'] + [is_wrap(fn, kd) for kd in ('pp', 'sp')]
    if k[0] == 'lemma':
        return {'spec': lemmas.spec_goals, 'nonul': lemmas.nonul_goals, 'C07': lemmas.c07_goals, 'C08': lemmas.c08_goals,
                'C09': lemmas.c09_goals, 'C16': lemmas.c16_goals, 'trim': trims.trim_lemmas, 'split': splits.split_lemmas, 'compose': lemmas.compose_goals, 'scan': lambda: [lemmas.scan_goal()]}[k[1]]()
    raise KeyError(name)


ALL = ['conv:1', 'conv:2', 'conv:4', 'decode', 'is:isUtf8', 'is:isUtf16', 'is:isUcs2', 'is:isUcs4', 'count', 'len', 'lenreads',
       'codepage', 'lower', 'wide', 'class:16', 'lowertab:16', 'pred', 'trim', 'split', 'join']
VERS = list(range(7, 17))

E_IS = ['p', 's', 'pt', 'st', 'd', 'sd', 'pp', 'sp']


def es(fn, kinds):
    return ['e_%s_%s' % (fn, k) for k in kinds]


class Prop:
    """own: groups of goals that are this property; entries: what the concrete harness runs for it;
    kinds: the kinds of obligation that count (None: all); xlines: further harness cases made of a
    counterexample of another function's goal; sibling: a goal whose failure explains that of another."""

    def __init__(self, own, entries, kinds=None, mode='value', xlines=None, sibling=None, ventries=None):
        self.own, self.entries, self.kinds, self.mode, self.xlines, self.sibling = own, entries, kinds, mode, xlines, sibling
        self.ventries = ventries    # what the harness runs in every Unicode version


def bits_of(a):
    """The elements of a harness argument b.., or None."""
    if not a or a[0] != 'b':
        return None
    return [int(x, 16) for x in a[1:].split(',') if x]


def width_of(entry):
    for suf, w in (('p8', 1), ('s8', 1), ('n8', 1), ('p16', 2), ('s16', 2), ('n16', 2), ('p32', 4), ('s32', 4), ('n32', 4)):
        if entry.endswith(suf):
            return w
    for nm, w in (('isUtf8', 1), ('decode', 1), ('isUtf16', 2), ('isUcs2', 2), ('isUcs4', 4)):
        if nm in entry:
            return w
    return None


def points_of(w, e):
    """Code points of a string, roughly: what does not decode is left as it is."""
    if w == 4:
        return e
    out, k = [], 0
    while k < len(e):
        c = e[k]
        if w == 2:
            if 0xd800 <= c < 0xdc00 and k + 1 < len(e) and 0xdc00 <= e[k + 1] < 0xe000:
                out.append(0x10000 + ((c & 0x3ff) << 10) + (e[k + 1] & 0x3ff))
                k += 2
                continue
            out.append(c)
            k += 1
            continue
        n = 1 if c < 0xc0 else 2 if c < 0xe0 else 3 if c < 0xf0 else 4 if c < 0xf8 else 5 if c < 0xfc else 6
        if n == 1:
            out.append(c)
            k += 1
            continue
        v = c & (0x7f >> n)
        for q in e[k + 1:k + n]:
            v = v << 6 | (q & 0x3f)
        out.append(v)
        k += n
    j = 0
    while j + 1 < len(out):
        if 0xd800 <= out[j] < 0xdc00 and 0xdc00 <= out[j + 1] < 0xe000:
            out[j:j + 2] = [0x10000 + ((out[j] & 0x3ff) << 10) + (out[j + 1] & 0x3ff)]
        j += 1
    return out


def x_rel(entry, a):
    fn = [f for f in ('isUtf8', 'isUtf16', 'isUcs2', 'isUcs4') if entry.startswith('e_%s_' % f)]
    if entry == 'e_decode' and a:
        fn = ['isUtf8']
    return ['x_rel_%s %s %d ?' % (f, a[0], t) for f in fn for t in range(6) if a]


def x_reenc(entry, a):
    w = width_of(entry)
    return ['x_reenc_%d %s %d' % (8 * w, a[0], t) for t in (1, 2, 3, 4)] if w and a and a[0][0] == 'b' else []


def x_round(entry, a):
    w = width_of(entry)
    e = bits_of(a[0]) if a else None
    if not w or e is None:
        return []
    pts = points_of(w, e)
    return ['x_round b' + ','.join('%x' % c for c in q) for q in [pts] + [[c] for c in pts[:6]]]


def x_lower(entry, a):
    """The mappings are unknown functions to the verifier: the same shape with the characters that tell them apart."""
    if not entry.startswith('e_toLower_') or not a:
        return []
    e = bits_of(a[0]) or []
    out = []
    for c in (0x49, 0x41, 0x69, 0x7a):
        for q in [[c], [c] * max(len(e), 2)] + [e[:k] + [c] + e[k + 1:] for k in range(min(len(e), 12))]:
            out.append('%s b%s %s' % (entry, ','.join('%x' % x for x in q), ' '.join(a[1:])))
    return out


def sib_pred(name):
    """isUtf8(char*, UTF-8, predicate) and the like: the goal without the predicate."""
    m = re.match(r'(\w+)\((std::\w+), ([\w-]+), predicate\)$', name)
    if m:
        return '%s (%s, target) %s' % m.groups()
    return name.replace(', predicate)', ')') if name.endswith(', predicate)') else None


CHK = ['isUtf8', 'isUtf16', 'isUcs2', 'isUcs4']
E_CONV1 = ['e_toUcs4_p8', 'e_toUtf16_p8', 'e_toUcs2_p8', 'e_toUcs4_s8', 'e_toUtf16_s8', 'e_toUcs2_s8']
E_CONV2 = ['e_toUtf8_p16', 'e_toUcs4_p16', 'e_toUtf8_s16', 'e_toUcs4_s16']
E_CONV4 = ['e_toUtf8_p32', 'e_toUtf16_p32', 'e_toUcs2_p32', 'e_toUtf8_s32', 'e_toUtf16_s32', 'e_toUcs2_s32']
E_CLS = ['e_%s%d' % (n, w) for n in ('assigned', 'private', 'control', 'white') for w in (8, 16, 32)]

PROPS = {
    'C01': Prop(['conv:1', 'lemma:spec'], E_CONV1),
    'C02': Prop(['conv:2', 'lemma:spec'], E_CONV2),
    'C03': Prop(['conv:4', 'lemma:spec'], E_CONV4),
    'C04': Prop(['is:isUtf8', 'lemma:spec'], es('isUtf8', E_IS)),
    'C05': Prop(['is:isUtf16', 'is:isUcs2', 'is:isUcs4', 'lemma:spec'], es('isUtf16', E_IS) + es('isUcs2', E_IS) + es('isUcs4', E_IS)),
    'C06': Prop(['pred'] + ['ispred:' + f for f in CHK], ['x_rel_' + f for f in CHK] + ['e_pred_8', 'e_pred_16', 'e_pred_32', 'x_pred_chain'], xlines=x_rel, sibling=sib_pred),
    'C07': Prop(['lemma:C07'], ['x_reenc_8', 'x_reenc_16', 'x_reenc_32'], xlines=x_reenc),
    'C08': Prop(['lemma:C08', 'lemma:nonul'], ['x_round'], xlines=x_round),
    'C09': Prop(['count', 'lemma:C09', 'lemma:spec'], ['e_len_p8', 'e_len_p16', 'e_len_p32', 'e_len_s8', 'e_len_s16', 'e_len_s32']),
    'C10': Prop(ALL + ['class:%d' % v for v in VERS] + ['lowertab:%d' % v for v in VERS], [], kinds={'safety', 'termination', 'frame-in'}, mode='safety'),
    'C11': Prop(['len', 'lemma:spec'], ['e_len_n8', 'e_len_n16', 'e_len_n32', 'e_isUtf8_len', 'e_isUtf8_lend']),
    'C12': Prop(['lower'] + ['lowertab:%d' % v for v in VERS], ['e_toLower_8', 'e_toLower_16', 'e_toLower_32', 'e_lower', 'e_turkic'], xlines=x_lower, ventries=['e_lower', 'e_turkic']),
    'C13': Prop(['pred:one'] + ['class:%d' % v for v in VERS], E_CLS, ventries=E_CLS),
    'C14': Prop(['split', 'join', 'lemma:split'], ['e_%s_%s' % (f, x) for f in ('split', 'join') for x in ('8', '16', '32', 'w')]),
    'C15': Prop(['trim', 'lemma:trim', 'lemma:spec', 'lemma:nonul'], ['e_trim_8', 'e_trim_16', 'e_trim_32', 'e_trim_w', 'e_trimset_8', 'e_trimset_16', 'e_trimset_32', 'e_trimset_w',
                                      'e_trim7', 'e_trimws_8', 'e_trimws_16', 'e_trimws_32']),
    'C16': Prop(['codepage', 'lemma:C16', 'lemma:spec'], ['e_codepage']),
    'C17': Prop(['wide', 'lemma:spec'], ['e_w_isUtf8_p', 'e_w_isUtf16_p', 'e_w_isUcs2_p', 'e_w_isUcs4_p', 'e_w_isUtf8_s', 'e_w_isUtf16_s', 'e_w_isUcs2_s', 'e_w_isUcs4_s',
                           'e_isW_p8', 'e_isW_p16', 'e_isW_p32', 'e_isW_s8', 'e_isW_s16', 'e_isW_s32', 'e_w_toUtf8_p', 'e_w_toUtf16_p', 'e_w_toUcs2_p',
                           'e_w_toUcs4_p', 'e_w_toUtf8_s', 'e_w_toUtf16_s', 'e_w_toUcs2_s', 'e_w_toUcs4_s', 'e_toW_p8', 'e_toW_p16', 'e_toW_p32',
                           'e_toW_s8', 'e_toW_s16', 'e_toW_s32']),
    'C18': Prop(ALL + ['lemma:scan'] + ['class:%d' % v for v in VERS] + ['lowertab:%d' % v for v in VERS], [], kinds={'frame', 'frame-in'}, mode='history'),
}


def goals_of(groups):
    out, seen = [], set()
    for g in groups:
        for x in group(g):
            if x.name not in seen:
                seen.add(x.name)
                x.group = g
                out.append(x)
    return out


def providers(mod):
    """dem -> the goals that prove the contract of that function (their entry points call it)."""
    out = {}
    for g in goals_of(x for x in ALL if x not in ('len', 'lenreads')):
        if g.entry:
            for d in direct(mod, g.entry):
                out.setdefault(d, []).append(g)
    for g in goals_of(['lemma:compose']):
        out[g.contract] = [g]
    return out
