"""C18: expression strings are evaluated with the declared operator precedence."""
import contextlib
import io
import itertools
from vs import algs, ref
from vs.runner import Task

BOUNDS = ('strings of up to 4 operands in every bracketing (redundant brackets up to 3 operands) with every choice of the operators + - * ^ | < >, 5 operands in every bracketing without the operator -, every order of the three precedence groups and '
          'every order of fewer groups; the operations are uninterpreted (* and ^ associative, + and - those of numbers), so the values of the operands are arbitrary; plus strings over general multivectors of a real algebra')
ASSUMPTIONS = ['names and integers as operands; unary minus only in the strings over a real algebra', 'groups that are not declared keep the precedence Python gives them; < and > only when their group is declared']
OPS = '+-*^|<>'


class T:
    """a value that records the operations that made it; * and ^ are associative"""
    __slots__ = 't',

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        raise TypeError('truth value of an operand')
    __hash__ = None


def join(op, a, b):
    if op in '*^':
        a = a[1:] if a[0] == op and not isinstance(a, str) else (a,)
        b = b[1:] if b[0] == op and not isinstance(b, str) else (b,)
        return (op,) + a + b
    return (op, a, b)


def _method(op, swap=False):
    def f(self, other):
        o = other.t if isinstance(other, T) else str(other) if isinstance(other, int) else None
        if o is None:
            return NotImplemented
        return T(join(op, o, self.t) if swap else join(op, self.t, o))
    return f


for _n, _o in dict(add='+', sub='-', mul='*', xor='^').items():
    setattr(T, '__%s__' % _n, _method(_o))
    setattr(T, '__r%s__' % _n, _method(_o, True))
setattr(T, '__or__', _method('|'))
setattr(T, '__ror__', _method('|', True))
setattr(T, '__lt__', _method('<'))
setattr(T, '__gt__', _method('>'))

PYTHON = ['*', '+-', '^', '|']
GROUPS = ('<>|', '^', '*')
ORDERS = [p for k in (3, 2, 1) for p in itertools.permutations(GROUPS, k)]


def want(node, ops, order):
    """node: leaf name or list of nodes; ops: iterator of operators in order of appearance"""
    if isinstance(node, str):
        return node
    items = []
    for i, x in enumerate(node):
        if i:
            items.append(None)
        items.append(x)
    items = [x if isinstance(x, str) else x for x in items]
    # operators appear in the text between the children: fill in from left to right, descending first
    vals, my = [], []
    for i, x in enumerate(node):
        if i:
            my.append(next(ops))
        vals.append(want(x, ops, order))
    for grp in list(order) + [g for g in PYTHON if not any(c in ''.join(order) for c in g)]:
        nv, nm = [vals[0]], []
        for o, v in zip(my, vals[1:]):
            if o in grp:
                nv[-1] = join(o, nv[-1], v)
            else:
                nm.append(o)
                nv.append(v)
        vals, my = nv, nm
    assert not my
    return vals[0]


def text(node, ops, top=True):
    if isinstance(node, str):
        return node
    out = ''
    for i, x in enumerate(node):
        if i:
            out += next(ops)
        out += text(x, ops, False)
    return out if top else '(' + out + ')'


def shapes(leaves):
    """every bracketing of the leaves; a node is a list of at least two nodes"""
    n = len(leaves)
    if n == 1:
        return [leaves[0]]
    out = []
    for k in range(2, n + 1):
        for cut in itertools.combinations(range(1, n), k - 1):
            parts = [leaves[a:b] for a, b in zip((0,) + cut, cut + (n,))]
            out += [list(c) for c in itertools.product(*[shapes(p) for p in parts])]
    return out


def redundant(node):
    """the same bracketing with every choice of one pair of brackets more around some nodes"""
    if isinstance(node, str):
        return [node, [node], [[node]]]
    sub = [list(c) for c in itertools.product(*[redundant(x) for x in node])]
    return sub + [[x] for x in sub]


def run(ctx, shape, order, alphabet, spaces=''):
    from galgebra.printer import GAeval
    ops_n = []

    def count(x):
        if not isinstance(x, str):
            ops_n.extend([0] * (len(x) - 1))
            for y in x:
                count(y)
    count(shape)
    al = [o for o in alphabet if o not in '<>' or '<>|' in order]
    cases = []
    for ops in itertools.product(al, repeat=len(ops_n)):
        s = text(shape, iter(ops))
        if spaces:
            s = ''.join(c + spaces if c in OPS + '()' else c for c in s)
        try:
            got = GAeval(s)
            got = got.t if isinstance(got, T) else str(got)
        except Exception as e:
            got = None
        cases.append((repr(s) + ' with precedence ' + ','.join(order), got, want(shape, iter(ops), order)))
    ctx.claim_terms(cases, 'value of %s with precedence %s' % (text(shape, iter('?' * 99)), ','.join(order)))


NAMES = {'letters': 'a b c d e f', 'similar': 'a aa a1 _a a_ A', 'numbers': '2 a 3 b 12 c', 'tokens': '_1 x_1_0 e_x X1_1 a0 E', 'same': 'a a a b b a'}


def bracketings(ctx, n, order, names='letters', red=False, alphabet=OPS, part=None, spaces=''):
    from galgebra.printer import def_prec
    lv = NAMES[names].split()[:n]
    gd = {x: T(x) for x in lv if not x.isdigit()}
    def_prec(gd, ','.join(order))
    if names == 'numbers':      # python evaluates 2 < a as a > 2, whatever a is
        alphabet = '+-*^|'
    sh = shapes(lv)
    if red:
        sh = [r for s in sh for r in redundant(s)]
    if part is not None:
        sh = sh[part[0]::part[1]]
    for s in sh:
        run(ctx, s, order, alphabet, spaces)


def default(ctx):
    from galgebra.printer import def_prec, GAeval
    gd = {x: T(x) for x in 'abcd'}
    def_prec(gd)
    for s in shapes(list('abcd')):
        run(ctx, s, ('<>|', '^', '*'), OPS)
    # names are looked up when the string is evaluated
    gd['a'] = T('z')
    ctx.claim(GAeval('a|b').t == ('|', 'z', 'b'), 'current value of a name')
    del gd['b']
    ctx.claim_raises(NameError, lambda: GAeval('a|b'), 'unknown name')
    gd['b'] = T('b')
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        v = GAeval('a*b|c', True)
    ctx.claim(v.t == ('*', 'z', ('|', 'b', 'c')), 'value when the string is printed')
    # a rejected order changes nothing
    for bad in ('<>|,^,+', 'x', '<>|,^,*,', '|,^', ''):
        ctx.claim_raises(ValueError, lambda: def_prec({}, bad), 'illegal order %r' % bad)
        ctx.claim(GAeval('a*b|c').t == ('*', 'z', ('|', 'b', 'c')), 'previous order and names kept after the error')
    for s in ('(a|b', 'a|b)', ')a|b(', '((a|b)', '(a))*(b'):
        ctx.claim_raises((ValueError, SyntaxError), lambda: GAeval(s), 'unbalanced brackets')
    ctx.claim(GAeval('a*b|c').t == ('*', 'z', ('|', 'b', 'c')), 'works after the errors')
    # two namespaces, two orders
    def_prec({'a': T('p'), 'b': T('q'), 'c': T('r')}, '*,^,<>|')
    ctx.claim(GAeval('a*b|c').t == ('|', ('*', 'p', 'q'), 'r'), 'new order and names')
    def_prec(gd)
    ctx.claim(GAeval('a*b|c').t == ('*', 'z', ('|', 'b', 'c')), 'old order and names again')


STRINGS = ['a', '(a)', 'a+b', 'a-b+c', 'a|b', 'a*b|c', 'a|b*c', 'a^b|c', 'a|b^c', 'a|b|c', 'a<b<c', 'a<b>c', 'a|b<c|d', 'a<b*c>d', 'a^b*c^d', 'a*b^c*d', 'a|b^c|d', '(a|b)^(c|d)', '((a|b)^(c|d))*a', '(a+b)|c', 'a|(b+c)', '(a|b+c|d)*a',
           '(a-b)*(a+b)', 'a*(b|(c^d))', 'a*(b|(c^d)|a)', '((a^b)<c)>d', '(a*b-b*a)|c', 'a-(b-c)', 'a-b*c-d', '2*a|b', 'a|b*3', 'a-2*b^c', '-a', '-a|b', '-a*b+c', '-(a|b)*c', '-a^b|c', 'a^b^c', 'a*b*c', 'a < b < c', ' a | b ^ c ', '( a + b ) * c',
           'rev(a)|b', 'a|rev(b)*c', 'rev(a|b)*c', 'c^even(a*b)|c', 'rev(a*b|c)', 'rev(a)|even(b*c)']


def value(al, s, V, order):
    """reference value: descend by the loosest group that occurs outside brackets, split at its last operator"""
    s = s.replace(' ', '')
    while s.startswith('('):
        lvl = 0
        for i, ch in enumerate(s):
            lvl += (ch == '(') - (ch == ')')
            if lvl == 0:
                break
        if i < len(s) - 1:
            break
        s = s[1:-1]
    for grp in ['+-'] + list(reversed(order)):
        lvl = 0
        for i in range(len(s) - 1, 0, -1):
            lvl += (s[i] == ')') - (s[i] == '(')
            if lvl == 0 and s[i] in grp:
                a, b = value(al, s[:i], V, order), value(al, s[i + 1:], V, order)
                return {'+': lambda: ref.add(a, b), '-': lambda: ref.sub(a, b), '*': lambda: al.mul(a, b), '^': lambda: ref.wedge(a, b), '|': lambda: al.dot(a, b), '<': lambda: al.lc(a, b), '>': lambda: al.rc(a, b)}[s[i]]()
        if grp == '+-' and s[0] == '-':
            return ref.scale(-1, value(al, s[1:], V, order))
    if s.startswith('rev('):
        return ref.rev(value(al, s[3:], V, order))
    if s.startswith('even('):
        r = value(al, s[4:], V, order)
        return {m: c for m, c in r.items() if ref.gr(m) % 2 == 0}
    return {0: int(s)} if s.isdigit() else V[s]


def multivectors(ctx, alg, order):
    from galgebra.printer import def_prec, GAeval
    ga = algs.make(ctx, alg)
    al = ref.alg(ga)
    gd, V = {}, {}
    for x, g in (('a', (1,)), ('b', (0, 1)), ('c', None), ('d', (1,))):
        gd[x], V[x] = ctx.mv(ga, x, grades=g)
    gd['rev'], gd['even'] = lambda x: x.rev(), lambda x: x.even()
    def_prec(gd, ','.join(order))
    for s in STRINGS:
        ctx.claim_eq(GAeval(s), value(al, s, V, order), 'value of %s' % s)
    for x in 'abcd':
        ctx.claim_eq(gd[x], V[x], 'operand unchanged')


def tasks(tier):
    tt = []
    for o in ORDERS:
        k = '/'.join(o)
        for n in (1, 2, 3, 4):
            tt.append(Task('all-%d-%s' % (n, k), bracketings, params=dict(n=n, order=o), weight=n))
        for names in NAMES:
            if names != 'letters':
                for n in (2, 3):
                    tt.append(Task('%s-%d-%s' % (names, n, k), bracketings, params=dict(n=n, order=o, names=names)))
        for n in (1, 2):
            tt.append(Task('redundant-%d-%s' % (n, k), bracketings, params=dict(n=n, order=o, red=True)))
        tt.append(Task('spaces-3-%s' % k, bracketings, params=dict(n=3, order=o, spaces=' ')))
        if len(o) == 3:
            tt.append(Task('redundant-3-%s' % k, bracketings, params=dict(n=3, order=o, red=True), weight=3))
            for names in ('similar', 'same', 'numbers'):
                tt.append(Task('%s-4-%s' % (names, k), bracketings, params=dict(n=4, order=o, names=names), weight=4))
            for p in range(4):
                tt.append(Task('all-5-%s-%d' % (k, p), bracketings, params=dict(n=5, order=o, part=(p, 4), alphabet='+*^|<>' if tier == 'quick' else OPS), weight=8, timeout=800))
            if tier == 'thorough':
                for p in range(16):
                    tt.append(Task('all-6-%s-%d' % (k, p), bracketings, params=dict(n=6, order=o, part=(p, 16), alphabet='-*^|<'), weight=9, timeout=2000))
    tt.append(Task('default', default))
    for a in ('E2', 'M2', 'NX2', 'E3'):
        for o in ORDERS[:6]:
            tt.append(Task('mv-%s-%s' % (a, '/'.join(o)), multivectors, params=dict(alg=a, order=o), weight=4))
    return tt
