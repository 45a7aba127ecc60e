"""Mechanical extraction of sinkuu/rowcol into the Verus dialect.

Input: the crate after macro expansion by rustc itself (-Zunpretty=expanded), the contract file
verus/contracts.vc and verus/prelude.rs.  Output: one Verus file in which every function body is the
crate's own text, with only the rewrites listed in REWRITES below, and contracts spliced in."""
import ast, copy, re

REWRITES = [
 "modules are flattened into one; `use`, `extern crate`, `macro_rules!`, doc comments and attributes are dropped; `pub` is dropped",
 "paths into std/num/typenum/nodrop resolve to verus/prelude.rs; leading `::` and module prefixes of the crate's own items are dropped",
 "`FnMut` bounds are narrowed to `Fn` (callbacks are relations; order and number of calls is not part of the Verus claim)",
 "patterns in fn and closure parameters become a fresh variable and a `let`; closures get the parameter types and contract given for them",
 "`for P in E {B}` over a non-range E becomes `loop { match next { None => break, Some(P) => B } }`",
 "the constant `true` guarding a debug assertion becomes an arbitrary boolean, panics become a call of a diverging function that requires may_panic()",
 "where the contract file says @opcalls, `a * b` between two variables is written as the call it stands for, `Mul::mul(a, b)` (a Verus limitation with `T: Mul<&'a T>`)",
 "`mut self` becomes `self` and `let mut this = self`",
 "`format_args!` of a literal without arguments is fmt_lit(literal)",
 "`(a..b).map(|i| B).collect()` whose B assigns to captured variables is a loop over a..b that pushes B onto an ordered collection and then collects it",
 "a function nested in a body is moved out in front of the impl; `use` inside a body is dropped; `format!(\"{}\", x)` is fmt_display(&x); a loop pattern `&(ref a, ref b)` is a name with two borrows",
 "`ptr::read/write/drop_in_place` of `E.as_ref()/as_mut().get_unchecked(i)` are E.take_slot(i), E.put_slot(i, v), E.drop_slot(i), whose contracts keep the ledger of live slots",
 "a local bound by `let V = E.into_inner();` and later passed to mem::forget stays NoDrop storage: `let V = E.keep();` and `V.end_slots();`, which requires that no live slot is left",
 "the return value is named; `x[i]` etc. stay as written, except in the four dynamic index functions (@slicepanics), where it is the call `x.v_at(i)` whose contract has the panic in it",
 "in the U2 cofactor (@overflows) `a + b`, `a - b` between two variables are the calls v_add, v_sub, which panic or wrap past the end",
 "`if C { continue; } rest` at the top of a `for` body over a range is written `if !(C) { rest }`",
 "functions with a `#calls` contract appear a second time, as f__calls, with the callback bound `FnMut(A) -> B` as the trait Calls (a step relation between the callback's states), `f(a)` as `f.v_call((a,))`, and `E.map(|P| B).collect()`, `E.all(|P| B)`, `E.any(|P| B)` with such a call in B as the loop they stand for; `Vector::generate(|P| B)`, `Matrix::generate(|P| B)` with a B that changes captured state as a loop over the indices in the order the #calls contract of generate states",
 "impls named in the drop list (formatting, Copy, Eq, Drop, derives) are left out",
]

class Lost(Exception): pass

TOK = re.compile(r"""
  (?P<ws>\s+)|(?P<lc>//[^\n]*)|(?P<bc>/\*.*?\*/)
 |(?P<str>b?r?\#*"(?:[^"\\]|\\.)*"\#*)
 |(?P<chr>b?'(?:[^'\\]|\\.[^']*)')
 |(?P<life>'[A-Za-z_]\w*)
 |(?P<id>[A-Za-z_]\w*)
 |(?P<num>\d[\w.]*?(?=\.\.|[^\w.])|\d\w*)
 |(?P<op>->|=>|::|\.\.=|\.\.\.|\.\.|==|!=|<=|>=|&&|\|\||\+=|-=|\*=|/=|%=|\^=|\|=|&=|<<=|>>=|[-+*/%^!&|=<>@.,;:\#$?~(){}\[\]])
""", re.X | re.S)

class T:
    __slots__ = ('k', 's', 'a', 'b')
    def __init__(t, k, s, a, b): t.k, t.s, t.a, t.b = k, s, a, b
    def __repr__(t): return t.s

def lex(src):
    out, i = [], 0
    while i < len(src):
        m = TOK.match(src, i)
        if not m: raise Lost('cannot tokenise at %r' % src[i:i+30])
        k = m.lastgroup
        if k not in ('ws', 'lc', 'bc'): out.append(T(k, m.group(), i, m.end()))
        i = m.end()
    return out

OPEN = {'(': ')', '[': ']', '{': '}'}
def match(toks, i):
    """index of the token closing the bracket at i"""
    d = 0
    for j in range(i, len(toks)):
        s = toks[j].s
        if toks[j].k == 'op':
            if s in OPEN: d += 1
            elif s in (')', ']', '}'):
                d -= 1
                if d == 0: return j
    raise Lost('unbalanced')

def skip_angles(toks, i):
    """toks[i] is '<': index after the matching '>'"""
    d = 0
    while True:
        s = toks[i].s
        if s == '<': d += 1
        elif s == '>': d -= 1
        elif s in ('(', '['): i = match(toks, i)
        i += 1
        if d == 0: return i

class Fn:
    pass
class Item:
    pass

def norm(toks):
    """spelling of a header without lifetimes and spaces"""
    out = []
    i = 0
    while i < len(toks):
        t = toks[i]
        if t.k == 'life':
            if i + 1 < len(toks) and toks[i+1].s == ',': i += 2; continue
            i += 1; continue
        s = t.s
        if s == 'for': s = ' for '
        elif s in ('as', 'dyn', 'mut'): s = ' %s ' % s
        out.append(s); i += 1
    r = ''.join(out)
    r = r.replace('<,', '<').replace('<>', '')
    r = re.sub(r'(::)?(core|std)::(cmp|clone|marker|fmt|ops|iter|convert|default)::', '', r)
    return r.strip()

def parse_items(src, toks, i, end, out, drop_attr=False):
    while i < end:
        derived = False
        while toks[i].s == '#':
            j = i + 1
            if toks[j].s == '!': j += 1
            e = match(toks, j)
            if 'automatically_derived' in src[toks[j].a:toks[e].b]: derived = True
            i = e + 1
            if i >= end: return
        if toks[i].s == 'pub':
            i += 1
            if toks[i].s == '(': i = match(toks, i) + 1
        s = toks[i].s
        if s in ('use', 'extern'):
            while toks[i].s != ';': i += 1
            i += 1
        elif s == 'const' or s == 'static':
            start = i
            while toks[i].s != ';':
                if toks[i].s in OPEN: i = match(toks, i)
                i += 1
            it = Item(); it.kind = 'const'; it.a, it.b = start, i; i += 1
        elif s == 'macro_rules':
            j = i
            while toks[j].s not in OPEN: j += 1
            i = match(toks, j) + 1
            if i < end and toks[i].s == ';': i += 1
        elif s == 'mod':
            j = i + 2
            if toks[j].s == ';': i = j + 1; continue
            e = match(toks, j)
            parse_items(src, toks, j + 1, e, out)
            i = e + 1
        elif s in ('struct', 'enum'):
            start = i
            j = i
            while toks[j].s not in (';', '{'):
                if toks[j].s == '(': j = match(toks, j)
                j += 1
            e = match(toks, j) if toks[j].s == '{' else j
            it = Item(); it.kind = s; it.name = toks[i+1].s; it.a, it.b = start, e + 1
            out.append(it); i = e + 1
        elif s == 'type':
            start = i
            while toks[i].s != ';': i += 1
            it = Item(); it.kind = 'type'; it.name = toks[start+1].s; it.a, it.b = start, i + 1
            out.append(it); i += 1
        elif s in ('trait', 'impl') or (s == 'unsafe' and toks[i+1].s in ('trait', 'impl')):
            start = i
            if s == 'unsafe': i += 1; s = toks[i].s
            j = i + 1
            g = None
            if s == 'impl' and toks[j].s == '<':
                g = j; j = skip_angles(toks, j)
            h = j
            while toks[j].s != '{' : j += 1
            w = h
            while w < j and toks[w].s != 'where': w += 1
            e = match(toks, j)
            it = Item(); it.kind = s; it.derived = derived
            it.key = norm(toks[h:w]) if s == 'impl' else toks[h].s
            it.a, it.open, it.b = start, j, e
            it.fns, it.rest = [], []
            parse_members(src, toks, j + 1, e, it)
            out.append(it); i = e + 1
        elif s in ('fn', 'unsafe', 'async'):
            it = Item(); it.kind = 'fn'; it.fns = []; it.key = ''
            i = parse_fn(src, toks, i, it)
            out.append(it)
        else:
            raise Lost('unknown item at %r' % src[toks[i].a:toks[i].a+60])

def parse_members(src, toks, i, end, it):
    while i < end:
        while toks[i].s == '#':
            j = i + 1
            i = match(toks, j) + 1
        if toks[i].s == 'pub':
            i += 1
            if toks[i].s == '(': i = match(toks, i) + 1
        s = toks[i].s
        if s in ('type', 'const') and toks[i+1].s not in ('fn', 'unsafe'):
            st = i
            while toks[i].s != ';':
                if toks[i].s in OPEN: i = match(toks, i)
                i += 1
            it.rest.append((st, i + 1)); i += 1
        elif s == 'macro_rules':
            j = i
            while toks[j].s not in OPEN: j += 1
            i = match(toks, j) + 1
        else:
            i = parse_fn(src, toks, i, it)

def parse_fn(src, toks, i, it):
    f = Fn(); f.a = i
    while toks[i].s != 'fn': i += 1
    f.name = toks[i+1].s
    i += 2
    if toks[i].s == '<': i = skip_angles(toks, i)
    f.par = (i, match(toks, i))
    i = f.par[1] + 1
    f.ret = None
    if toks[i].s == '->':
        st = i + 1
        i = st
        while toks[i].s not in ('{', ';', 'where'):
            if toks[i].s in ('(', '['): i = match(toks, i)
            elif toks[i].s == '<': i = skip_angles(toks, i) - 1
            i += 1
        f.ret = (st, i)
    f.where = i if toks[i].s == 'where' else None
    while toks[i].s not in ('{', ';'):
        if toks[i].s in ('(', '['): i = match(toks, i)
        i += 1
    if toks[i].s == ';':
        f.body = None; f.b = i; nxt = i + 1
    else:
        e = match(toks, i)
        f.body = (i, e); f.b = e; nxt = e + 1
    f.key = (it.key + '::' if it.key else '') + f.name
    f.item = it
    it.fns.append(f)
    return nxt

# ---------------------------------------------------------------------------------------------
class Contract:
    def __init__(c):
        c.spec = ''; c.pre = ''; c.post = ''; c.ret = 'r'; c.mode = 'verify'; c.props = []
        c.loops = {}; c.loopstart = {}; c.loopend = {}; c.after = {}; c.closures = {}; c.closurepre = {}; c.closurepost = {}; c.attr = ''; c.opcalls = False; c.idx = False; c.over = False; c.calls = False; c.gens = {}; c.itemty = {}; c.brittle = False

def expand(text):
    """@foreach A=x,y B=p,q ... @endfor: the block once per column, $A and $B replaced"""
    def rep(m):
        cols = [kv.split('=', 1) for kv in m[1].split()]
        n = len(cols[0][1].split(','))
        out = ''
        for i in range(n):
            b = m[2]
            for k, v in cols: b = b.replace('$' + k, v.split(',')[i].replace('~', ' ').replace('^', ', ').replace(';', ','))
            out += b
        return out
    while '@foreach' in text:
        text = re.sub(r'@foreach ([^\n]*)\n((?:(?!@foreach).)*?)@endfor\n', rep, text, flags=re.S)
    return text

def identities(text):
    """@identity name(a b): lhs == rhs   -> a proof fn, discharged by computing both normal forms"""
    def one(m):
        name, vs, eq = m[1], m[2].split(), m[3]
        l, r = eq.split('==')
        M = dict(det3=lambda a,b,c,d,e,f,g,h,i: '(%s*%s*%s + %s*%s*%s + %s*%s*%s - %s*%s*%s - %s*%s*%s - %s*%s*%s)' % (a,e,i,b,f,g,c,d,h,c,e,g,b,d,i,a,f,h))
        def mac(x):
            while 'det3(' in x:
                st = x.index('det3('); d = 0; args = []; cur = ''
                for k in range(st + 4, len(x)):
                    ch = x[k]
                    if ch == '(':
                        d += 1
                        if d == 1: continue
                    if ch == ')':
                        d -= 1
                        if d == 0: break
                    if ch == ',' and d == 1: args.append('(%s)' % cur); cur = ''
                    else: cur += ch
                args.append('(%s)' % cur)
                x = x[:st] + M['det3'](*args) + x[k+1:]
            return x
        l, r = mac(l), mac(r)
        def ex(n):
            if isinstance(n, ast.Name): return 'Ex::V(%d)' % vs.index(n.id)
            if isinstance(n, ast.Constant): return {0: 'Ex::Zero', 1: 'Ex::One'}[n.value]
            k = {ast.Add: 'Add', ast.Sub: 'Sub', ast.Mult: 'Mul'}[type(n.op)]
            return 'Ex::%s(Box::new(%s), Box::new(%s))' % (k, ex(n.left), ex(n.right))
        def rs(n):
            if isinstance(n, ast.Name): return n.id
            if isinstance(n, ast.Constant): return {0: 'R.zero', 1: 'R.one'}[n.value]
            k = {ast.Add: 'p', ast.Sub: 's', ast.Mult: 'm'}[type(n.op)]
            return 'R.%s(%s, %s)' % (k, rs(n.left), rs(n.right))
        def dep(n): return 1 + max(dep(n.left), dep(n.right)) if isinstance(n, ast.BinOp) else 1
        a, b = [ast.parse(x.strip(), mode='eval').body for x in (l, r)]
        return ('pub proof fn %s<T>(R: Rg<T>%s) requires R.ring() ensures %s == %s {\n'
                'let env: Seq<T> = seq![%s];\nlet (a_, b_) = (%s, %s);\n'
                'assert(same(%s, %s)) by (compute_only);\nsame_ok(R, env, a_, b_); reveal_with_fuel(ev, %d); }\n') % (
                name, ''.join(', %s: T' % v for v in vs), rs(a), rs(b), ', '.join(vs), ex(a), ex(b), ex(a), ex(b), max(dep(a), dep(b)) + 1)
    return re.sub(r'^@identity (\w+)\(([^)]*)\): (.*)$', one, text, flags=re.M)

def load_prelude(d):
    """the dialect prelude and the proved algebra library"""
    return open(d + '/prelude.rs').read() + identities(open(d + '/algebra.rs').read())

def parse_contracts(text):
    fns, impls, tail, drops, structs, sibs = {}, {}, [], [], {}, []
    cur = None; buf = None
    sec = None
    def flush():
        pass
    lines = expand(text).split('\n')
    cur = None
    field = None
    def add(line):
        if cur is None: return
        kind, obj = cur
        if kind == 'fn':
            f, k = field
            if k is None: setattr(obj, f, getattr(obj, f) + line + '\n')
            else:
                d = getattr(obj, f); d[k] = d.get(k, '') + line + '\n'
        else: obj.append(line)
    for ln in lines:
        if ln.startswith('# '): continue
        m = re.match(r'@(\w+)\s*(.*)$', ln)
        if m:
            k, a = m.group(1), m.group(2).strip()
            if k == 'fn':
                c = Contract(); 
                for key in a.split(' || '): fns[key.strip()] = c
                c.calls = '#calls' in a
                cur = ('fn', c); field = ('spec', None)
            elif k == 'props': cur[1].props = a.split()
            elif k == 'ret': cur[1].ret = a
            elif k == 'overflows': cur[1].over = True
            elif k == 'item': n, d = a.split(None, 1); cur[1].itemty[int(n)] = d
            elif k == 'gen': n, d = a.split(None, 1); cur[1].gens[int(n)] = d
            elif k == 'slicepanics': cur[1].idx = True
            elif k == 'brittle': cur[1].brittle = True
            elif k == 'opcalls': cur[1].opcalls = True
            elif k == 'trusted': cur[1].mode = 'trusted'
            elif k == 'skip': cur[1].mode = 'skip'
            elif k == 'attr': cur[1].attr += a + ' '
            elif k == 'pre': field = ('pre', None)
            elif k == 'post': field = ('post', None)
            elif k in ('loop', 'loopstart', 'loopend', 'after', 'closure', 'closurepre', 'closurepost'):
                field = ({'loop': 'loops', 'closure': 'closures'}.get(k, k), int(a))
            elif k == 'impl': l = impls.setdefault(a, []); cur = ('impl', l)
            elif k == 'drop': drops.append(a); cur = None
            elif k == 'struct': l = structs.setdefault(a, []); cur = ('struct', l)
            elif k == 'tail': cur = ('tail', tail)
            elif k == 'end': cur = None
            else: raise Lost('contract file: ' + ln)
        elif cur: add(ln)
    return fns, impls, tail, drops, structs

# ---------------------------------------------------------------------------------------------
def nested(src, toks, f):
    """functions defined inside f's body"""
    out, i = [], f.body[0] + 1
    while i < f.body[1]:
        if toks[i].s == 'fn' and toks[i+1].k == 'id' and toks[i-1].s in ('{', ';', '}'):
            it = Item(); it.kind = 'fn'; it.fns = []; it.key = f.key; it.nested = True
            i = parse_fn(src, toks, i, it); out.append(it)
        else: i += 1
    return out

PATHFIX = [
    (re.compile(r'::std::rt::panic_fmt\b'), 'PANIC'),
]
def text_of(src, toks, a, b):
    return src[toks[a].a:toks[b-1].b] if b > a else ''

def fix_types(s):
    """rewrites that apply to any fragment of code"""
    s = re.sub(r'\bFnMut\s*\(', 'Fn(', s)
    s = re.sub(r'\bpub\s*(\((crate|super|self)\)\s*)?(?=\w)', '', s)
    s = re.sub(r'(?<![\w>])::(vector|matrix|util|typenum|num|std|core)\b', r'\1', s)
    s = re.sub(r'\b(typenum|vector|matrix|util|iter)::(uint::|consts::|type_operators::|operator_aliases::|ops::|iter::)?(?=[A-Z])', '', s)
    s = re.sub(r'(\.|\bfn )(cloned|into_iter|iter|iter_mut|get_unchecked|get_unchecked_mut|swap|lines|width)\(', r'\1v_\2(', s)
    s = re.sub(r'::core::convert::From::from\(err\)', 'err', s)
    s = re.sub(r'\b(std|core)::(mem|ptr|cmp)::', r'\2::', s)
    return s

def top_level(toks, a, b):
    out, i = [], a
    while i < b:
        if toks[i].s in OPEN: i = match(toks, i)
        out.append(toks[i]); i += 1
    return out

def callbacks(src, toks, f):
    """parameters whose type is bounded by FnMut"""
    whole = text_of(src, toks, f.a, f.body[0])
    tys = set(re.findall(r'(\w+)\s*:\s*FnMut\s*\(', whole))
    par = text_of(src, toks, f.par[0] + 1, f.par[1])
    return {n for n, t in re.findall(r'(\w+)\s*:\s*(\w+)\s*(?=,|$)', par) if t in tys}

class Rewriter:
    def __init__(r, src, toks, fn, con, log):
        r.src, r.toks, r.fn, r.con, r.log = src, toks, fn, con, log
        r.cb = callbacks(src, toks, fn) if con and con.calls else set()
        r.pats = {}
        r.scopes = {}; r.kept = set(); r.forgets = set()   # kept: token index of `into_inner` in a let whose local is later forgotten
        if fn is not None and hasattr(fn, 'a'): r.storage()
        r.nloop = 0; r.nclo = 0; r.used_loops = set(); r.used_clo = set(); r.npar = 0

    def storage(r):
        """locals that hold manually managed storage: (let position, end of block, name), and where they are given up"""
        toks = r.toks
        def block_end(k):
            d = 0
            while k < r.fn.b:
                if toks[k].s in OPEN: k = match(toks, k)
                elif toks[k].s in ('}', ')', ']'): return k
                k += 1
            return k
        r.locals = []
        for k in range(r.fn.a, r.fn.b - 5):
            if toks[k].s != 'let': continue
            q = k + (2 if toks[k+1].s == 'mut' else 1)
            name, e = toks[q].s, q
            while e < r.fn.b and toks[e].s != ';': e = (match(toks, e) if toks[e].s in OPEN else e) + 1
            end = block_end(e + 1)
            kept = False
            if [x.s for x in toks[e-4:e]] == ['.', 'into_inner', '(', ')']:
                for m in range(e, end - 5):
                    if toks[m].s == 'let' and toks[m + (2 if toks[m+1].s == 'mut' else 1)].s == name: break
                    if [x.s for x in toks[m:m+4]] == ['mem', '::', 'forget', '('] and toks[m+4].s == name and toks[m+5].s == ')':
                        r.kept.add(e - 3); r.forgets.add(m); kept = True; break
            if kept or any([x.s for x in toks[m:m+3]] == ['NoDrop', '::', 'new'] for m in range(q + 2, e)) and toks[q+1].s == '=' and toks[q+2].s == 'NoDrop':
                r.locals.append((e, end, name))

    def held(r, i):
        """storage locals in scope at token i and not given up on the way there"""
        toks, out = r.toks, {}
        for e, end, name in getattr(r, 'locals', []):
            if not e < i < end: continue
            gone = False
            for k in range(e, i):
                if toks[k].s == name and toks[k-1].s != '.' and ([x.s for x in toks[k+1:k+3]] == ['.', 'into_inner'] or toks[k-1].s == '(' and toks[k-2].s == 'forget'):
                    # an enclosing block of i holds it
                    d, q = 0, k
                    while q < i:
                        if toks[q].s in OPEN: d += 1
                        elif toks[q].s in ('}', ')', ']'):
                            d -= 1
                            if d < 0 and toks[q].s == '}': break
                            d = max(d, 0)
                        q += 1
                    else: gone = True
            out[name] = not gone or None
        return [n for n in out if out[n]]

    def rng(r, a, b):
        """rewritten text of tokens a..b (exclusive)"""
        toks, src = r.toks, r.src
        out = []; pos = toks[a].a if a < len(toks) else 0
        i = a
        def emit(upto):
            nonlocal pos
            out.append(src[pos:upto]); 
        while i < b:
            t = toks[i]; s = t.s
            if r.con and r.con.idx and t.k == 'id' and toks[i-1].s not in ('.', '::', 'mut') or (r.con and r.con.idx and t.k == 'id' and toks[i-1].s == 'mut' and toks[i-2].s == '&'):
                q, segs = i + 1, []
                while q < b and (toks[q].s in ('(', '[', '.', '::', '?')):
                    if toks[q].s in ('.', '::'): segs.append(('f', q, q + 2)); q += 2
                    elif toks[q].s == '?': segs.append(('f', q, q + 1)); q += 1
                    else: e = match(toks, q); segs.append((toks[q].s, q, e + 1)); q = e + 1
                if any(g[0] == '[' for g in segs):
                    emit(t.a); cur = t.s
                    for k, x, y in segs:
                        if k == 'f': cur += text_of(src, toks, x, y)
                        elif k == '(': cur += '(' + (r.rng(x + 1, y - 1) if y - 1 > x + 1 else '') + ')'
                        else: cur = '(*%s.%s(%s))' % (cur, 'v_at_mut' if r.fn.name.endswith('_mut') else 'v_at', r.rng(x + 1, y - 1))
                    out.append(cur); i = q; pos = toks[q-1].b; continue
            # panics
            if s == '::' and i + 1 < b and toks[i+1].s in ('core', 'std') and toks[i+2].s == '::':
                j = i
                path = []
                while toks[j].s == '::' or toks[j].k == 'id': path.append(toks[j].s); j += 1
                p = ''.join(path)
                if p in ('::core::panicking::panic', '::std::rt::panic_fmt', '::core::panicking::panic_fmt', '::core::panicking::assert_failed',
                         '::std::rt::begin_panic', '::core::panicking::panic_display', '::core::panicking::unreachable_display') and toks[j].s == '(':
                    h = r.held(i); emit(t.a); out.append('{ %svpanic() }' % ''.join('assert(%s.none_live()); ' % n for n in h) if h else 'vpanic()'); e = match(toks, j); i = e + 1; pos = toks[e].b; continue
            if s == 'let' and toks[i+1].s == 'kind' and toks[i+3].s == '::' and toks[i+6].s == 'panicking':
                emit(t.a)
                while toks[i].s != ';': i += 1
                pos = toks[i].b; i += 1; continue
            if s == 'if' and toks[i+1].s == 'true' and toks[i+2].s == '{':
                emit(t.a); out.append('if debug_assertions()'); pos = toks[i+1].b; i += 2; continue
            if s == 'format_args' and toks[i+1].s == '!' and toks[i+3].k == 'str' and '{' not in toks[i+3].s and match(toks, i + 2) == i + 4:
                emit(t.a); out.append('fmt_lit(%s)' % toks[i+3].s); pos = toks[i+4].b; i += 5; continue
            # raw reads, writes and drops of a slot of manually managed storage
            if s == 'ptr' and toks[i+1].s == '::' and toks[i+2].s in ('read', 'write', 'drop_in_place') and toks[i+3].s == '(':
                e = match(toks, i + 3); q = i + 4
                while q < e and toks[q].s != ',': q = (match(toks, q) if toks[q].s in OPEN else q) + 1
                if toks[q-1].s == ')':
                    o = q - 2; d = 0
                    while not (toks[o].s == '(' and match(toks, o) == q - 1): o -= 1
                    if toks[o-1].s in ('get_unchecked', 'get_unchecked_mut') and [x.s for x in toks[o-6:o-1]] in (['.', 'as_ref', '(', ')', '.'], ['.', 'as_mut', '(', ')', '.']):
                        st = i
                        while toks[st-1].s in ('::', 'core', 'std'): st -= 1
                        emit(toks[st].a)
                        out.append('%s.%s_slot(%s%s)' % (r.rng(i + 4, o - 6), {'read': 'take', 'write': 'put', 'drop_in_place': 'drop'}[toks[i+2].s], r.rng(o + 1, q - 1), (', ' + r.rng(q + 1, e)) if q < e else ''))
                        i = e + 1; pos = toks[e].b; continue
            if i in r.kept:
                emit(t.a); out.append('keep'); pos = toks[i].b; i += 1; continue
            if i in r.forgets:
                st = i
                while toks[st-1].s in ('::', 'core', 'std'): st -= 1
                emit(toks[st].a); out.append('%s.end_slots()' % toks[i+4].s); i += 6; pos = toks[i-1].b; continue
            if s == '::' and [x.s for x in toks[i+1:i+6]] == ['alloc', '::', '__export', '::', 'must_use'] and match(toks, i + 6) < b:
                e = match(toks, i + 6)
                k = next((k for k in range(i + 6, e) if toks[k].s == 'format_args'), None)
                if k and toks[k+3].s == '"{0}"' and toks[k+4].s == ',':
                    emit(t.a); out.append('fmt_display(&(%s))' % r.rng(k + 5, match(toks, k + 2))); i = e + 1; pos = toks[e].b; continue
            if s == 'use' and toks[i-1].s in ('{', ';', '}'):
                emit(t.a)
                while toks[i].s != ';': i += 1
                pos = toks[i].b; i += 1; continue
            if s == 'fn' and t.k == 'id' and toks[i+1].k == 'id' and toks[i-1].s in ('{', ';', '}'):
                emit(t.a)
                while toks[i].s != '{': i += 1
                i = match(toks, i) + 1; pos = toks[i-1].b; continue
            if r.con and (r.con.calls or r.con.gens):
                got = r.stateful(i, b)
                if got: emit(t.a); out.append(got[0]); i = got[1]; pos = toks[i-1].b; continue
            if s == '(' and [x.s for x in toks[match(toks, i)+1:match(toks, i)+4]] == ['.', 'map', '('] and any(q.s == '..' for q in top_level(toks, i + 1, match(toks, i))):
                e = match(toks, i); m = match(toks, e + 3)
                if [x.s for x in toks[m+1:m+5]] == ['.', 'collect', '(', ')'] and toks[e+4].s == '|' and toks[e+6].s == '|' and r.assigns(e + 7, m):
                    emit(t.a); n = r.nloop; r.nloop += 1; r.used_loops.add(n); r.nclo += 1
                    c = r.con
                    out.append('{ let mut col%d = Collecting::new(); for %s in it%d: %s\n%s{ %s\nlet item%d = %s;\n%s\ncol%d.push(item%d); }\n%s; col%d.finish() }' % (
                        n, toks[e+5].s, n, r.rng(i + 1, e), ('invariant\n' + c.loops[n]) if c and c.loops.get(n, '').strip() else '', c.loopstart.get(n, '') if c else '',
                        n, r.rng(e + 7, m), c.loopend.get(n, '') if c else '', n, n, c.after.get(n, '') if c else '', n))
                    i = m + 5; pos = toks[i-1].b; continue
            if s == 'macro_rules':
                emit(t.a)
                while toks[i].s not in OPEN: i += 1
                i = match(toks, i) + 1; pos = toks[i-1].b
                if i < b and toks[i].s == ';': pos = toks[i].b; i += 1
                continue
            if s == '#' and toks[i+1].s in ('[', '!'):
                emit(t.a); j = i + 1
                if toks[j].s == '!': j += 1
                e = match(toks, j); pos = toks[e].b; i = e + 1; continue
            if s in ('for', 'while', 'loop') and t.k == 'id' and not (s == 'for' and toks[i+1].s == '<') \
               and (i == 0 or toks[i-1].s in ('{', '}', ';', '=>', ')', 'else', ':') or toks[i-1].k == 'life' or toks[i-1].s == '='):
                emit(t.a)
                txt, i = r.loop(i); out.append(txt); pos = toks[i-1].b; continue
            if s == '(' and i + 1 < b and not (toks[i-1].k == 'id' and toks[i-1].s not in ('in', 'return', 'else')) and toks[i-1].s not in ('>', ')', ']'):
                e = match(toks, i)
                if e + 1 < b and toks[e+1].s == '.' and any(q.s == '..' for q in top_level(toks, i + 1, e)):
                    emit(t.a); out.append('range'); pos = t.a; i += 1; continue
            if s in ('|', '||') and toks[i-1].s in ('(', ',', '=', '{', ';', 'return', 'move', '=>'):
                emit(t.a)
                txt, i = r.closure(i, b); out.append(txt); pos = toks[i-1].b; continue
            i += 1
        if b > a: out.append(src[pos:toks[b-1].b])
        return ''.join(out)

    def stateful(r, i, b):
        """callback calls, and iterator chains and generate calls whose closure changes captured state"""
        toks = r.toks; t = toks[i]
        if t.s in r.cb and toks[i-1].s != '.' and toks[i+1].s == '(':
            e = match(toks, i + 1)
            return '%s.v_call((%s,))' % (t.s, r.rng(i + 2, e)), e + 1
        if t.s in ('Vector', 'Matrix') and [x.s for x in toks[i+1:i+4]] == ['::', 'generate', '('] and r.nloop in r.con.gens:
            e = match(toks, i + 3)
            if toks[i+4].s != '|': return None
            c = i + 5
            while toks[c].s != '|': c = (match(toks, c) if toks[c].s in OPEN else c) + 1
            if not r.changes(c + 1, e): return None
            n = r.nloop; r.used_loops.add(n); dims = r.con.gens[n].split()
            pat = text_of(r.src, toks, i + 5, c)
            if t.s == 'Vector':
                r.nloop += 1
                return r.collecting(n, 'range(0..%s::to_usize())' % dims[0], pat, lambda: r.rng(c + 1, e), 'Vector<_, %s>' % dims[0]), e + 1
            r.nloop += 2; r.used_loops.add(n + 1)
            inner = lambda: r.collecting(n + 1, 'range(0..%s::to_usize())' % dims[1], 'gj%d' % n, lambda: 'let %s = (gi%d, gj%d); %s' % (pat, n, n, r.rng(c + 1, e)), 'Vector<_, %s>' % dims[1])
            return 'Matrix(%s)' % r.collecting(n, 'range(0..%s::to_usize())' % dims[0], 'gi%d' % n, inner, 'Vector<_, %s>' % dims[0]), e + 1
        if not r.cb: return None
        if not (t.s == '(' and not (toks[i-1].k == 'id' and toks[i-1].s not in ('in', 'return', 'else')) and toks[i-1].s not in ('>', ')', ']', '!') or t.k == 'id' and toks[i-1].s not in ('.', '::')): return None
        q = match(toks, i) + 1 if t.s == '(' else i + 1
        while q < b:
            if toks[q].s == '.' and toks[q+1].s in ('map', 'all', 'any') and toks[q+2].s == '(':
                e = match(toks, q + 2); a = q + 3; kind = toks[q+1].s
                if toks[a].s in r.cb and a + 1 == e: pat, body = 'cx', lambda: '%s.v_call((cx,))' % toks[a].s
                elif toks[a].s == '|':
                    c = a + 1
                    while toks[c].s != '|': c = (match(toks, c) if toks[c].s in OPEN else c) + 1
                    if r.changes(c + 1, e): pat, body = text_of(r.src, toks, a + 1, c), lambda: r.rng(c + 1, e)
                    else: pat = None
                else: pat = None
                if pat is not None:
                    n = r.nloop; r.nloop += 1; r.used_loops.add(n)
                    E = r.rng(i, q)
                    if t.s == '(' and q == match(toks, i) + 1 and any(x.s == '..' for x in top_level(toks, i + 1, match(toks, i))) and not E.startswith('range'): E = 'range' + E
                    if kind == 'map':
                        if [x.s for x in toks[e+1:e+5]] != ['.', 'collect', '(', ')']: raise Lost('%s: a mapping with a callback that is not collected' % r.fn.key)
                        return r.collecting(n, E, pat, body, None), e + 5
                    stop, neg = ('false', '!') if kind == 'all' else ('true', '')
                    return '{ let mut res%d = %s; %s res%d }' % (n, 'true' if kind == 'all' else 'false', r.over(n, E, pat, lambda: 'let item%d = %s;\n%s\nif %sitem%d { res%d = %s; break; }' % (n, body(), r.con.loopend.get(n, ''), neg, n, n, stop), ''), n), e + 1
            if toks[q].s in ('(', '['): q = match(toks, q) + 1
            elif toks[q].s in ('.', '::', '?'): q += 2 if toks[q].s != '?' else 1
            else: return None
        return None

    def changes(r, a, b):
        """these tokens call a callback, advance an iterator or assign"""
        return r.assigns(a, b) or any(r.toks[k].s in r.cb and r.toks[k-1].s != '.' or [x.s for x in r.toks[k:k+4]] == ['.', 'next', '(', ')'] for k in range(a, b))

    def over(r, n, expr, pat, body, le):
        g = lambda d: r.con.__dict__[d].get(n, '')
        inv, ens, exc = g('loops'), '', ''
        if '\nensures' in inv: inv, ens = inv.split('\nensures', 1); ens = '\nensures' + ens
        if '\nEXCEPT ' in inv: inv, exc = inv.split('\nEXCEPT ', 1); exc = 'invariant_except_break ' + exc.rstrip().rstrip(',') + ',\n'
        r.pats[n] = [x.strip() for x in pat.strip('()').split(',')]
        return ('let mut it%(n)d = %(expr)s;\nlet ghost all%(n)d = it%(n)d.items(); let ghost mut n%(n)d: int = 0;\n'
                'loop\n%(exc)sinvariant it%(n)d.inv(), 0 <= n%(n)d <= all%(n)d.len(), it%(n)d.items() == all%(n)d.subrange(n%(n)d, all%(n)d.len() as int),\n%(inv)s\n'
                'decreases all%(n)d.len() - n%(n)d\n{ match Iterator::next(&mut it%(n)d) { None => break, Some(%(pat)s) => {\n'
                'proof { assert(all%(n)d.subrange(n%(n)d, all%(n)d.len() as int)[0] == all%(n)d[n%(n)d]); assert(all%(n)d.subrange(n%(n)d, all%(n)d.len() as int).subrange(1, all%(n)d.len() - n%(n)d) =~= all%(n)d.subrange(n%(n)d + 1, all%(n)d.len() as int)); n%(n)d = n%(n)d + 1; }\n'
                '%(ls)s\n%(body)s\n%(le)s } } }\n%(af)s;') % dict(n=n, expr=expr, inv=inv.rstrip().rstrip(',') + ',' + ens, exc=exc, pat=pat, body=body(), ls=g('loopstart'), le=le, af=g('after'))

    def collecting(r, n, expr, pat, body, ty):
        le = r.con.loopend.get(n, '')
        return '{ let mut col%d = Collecting%s::new(); %s col%d.finish%s() }' % (n, '::<%s>' % r.con.itemty[n] if n in r.con.itemty else '', r.over(n, expr, pat, lambda: 'let item%d%s = { %s };\n%s\ncol%d.push(item%d);' % (n, ': ' + r.con.itemty[n] if n in r.con.itemty else '', body(), le, n, n), ''), n, '::<%s>' % ty if ty else '')

    def assigns(r, a, b):
        """an assignment (not a let) in these tokens"""
        for k in range(a, b):
            if r.toks[k].s in ('=', '+=', '-=', '*=', '/='):
                q = k
                while q > a and r.toks[q-1].s not in (';', '{', '}', '=>'): q -= 1
                if r.toks[q].s not in ('let', 'if', 'while', 'for', 'type', 'use'): return True
        return False

    def body(r, a, b):
        """body of a for loop: `if C { continue; } rest` is written `if !(C) { rest }` (Verus has no continue there)"""
        toks = r.toks; i = a
        while i < b:
            if toks[i].s == 'if' and toks[i-1].s in ('{', ';', '}') and toks[i+1].s != 'let':
                j = i + 1
                while j < b and toks[j].s != '{':
                    if toks[j].s in ('(', '['): j = match(toks, j)
                    j += 1
                if j < b:
                    e = match(toks, j)
                    if [t.s for t in toks[j+1:e]] in (['continue'], ['continue', ';']) and (e + 1 >= b or toks[e+1].s != 'else'):
                        return '%s if !(%s) { %s }' % (r.rng(a, i) if i > a else '', r.rng(i + 1, j), r.body(e + 1, b) if e + 1 < b else '')
            if toks[i].s in OPEN: i = match(toks, i)
            i += 1
        return r.rng(a, b)

    def loop(r, i):
        toks = r.toks
        n = r.nloop; r.nloop += 1
        r.used_loops.add(n)
        inv = r.con.loops.get(n, '') if r.con else ''
        ls = r.con.loopstart.get(n, '') if r.con else ''
        le = r.con.loopend.get(n, '') if r.con else ''
        af = r.con.after.get(n, '') if r.con else ''
        kind = toks[i].s
        j = i + 1
        while toks[j].s != '{':
            if toks[j].s in ('(', '['): j = match(toks, j)
            j += 1
        e = match(toks, j)
        if kind == 'for':
            k = i + 1
            while toks[k].s != 'in':
                if toks[k].s in ('(', '['): k = match(toks, k)
                k += 1
            pat = text_of(r.src, toks, i + 1, k); refs = ''
            m = re.match(r'^\((\w+), &\(ref (\w+), ref (\w+)\)\)$', pat)
            if m: pat = '(%s, it%d_e)' % (m[1], n); refs = 'let %s = &it%d_e.0; let %s = &it%d_e.1;' % (m[2], n, m[3], n)
            d = 0; isr = False
            q = k + 1
            while q < j:
                if toks[q].s in ('(', '['): q = match(toks, q)
                elif toks[q].s in ('..', '..='): isr = True
                q += 1
            expr = r.rng(k + 1, j)
            body = r.body(j + 1, e)
            if isr:
                return 'for %s in it%d: %s\n%s{ %s\n%s\n%s }\n%s' % (pat if pat != '_' else '_i%d' % n, n, expr, ('invariant\n' + inv) if inv.strip() else '', ls, body, le, (af or '') + ';'), e + 1
            br = any(t.s == 'break' for t in toks[j:e])
            head = ('{ let mut it%(n)d = IntoIterator::v_into_iter(%(expr)s);\nlet ghost all%(n)d = it%(n)d.items(); let ghost mut n%(n)d: int = 0;\n'
                    'loop\ninvariant it%(n)d.inv(), 0 <= n%(n)d <= all%(n)d.len(), it%(n)d.items() == all%(n)d.subrange(n%(n)d, all%(n)d.len() as int),\n%(inv)s\n%(ens)s'
                    'decreases all%(n)d.len() - n%(n)d\n{ match Iterator::next(&mut it%(n)d) { None => break, Some(%(pat)s) => {\n'
                    'proof { assert(all%(n)d.subrange(n%(n)d, all%(n)d.len() as int)[0] == all%(n)d[n%(n)d]); assert(all%(n)d.subrange(n%(n)d, all%(n)d.len() as int).subrange(1, all%(n)d.len() - n%(n)d) =~= all%(n)d.subrange(n%(n)d + 1, all%(n)d.len() as int)); n%(n)d = n%(n)d + 1; }\n'
                    '%(ls)s\n%(body)s\n%(le)s } } }\n%(af)s }') % dict(n=n, expr=expr, inv=inv, pat=pat, body=refs + body, ls=ls, le=le, af=af,
                        ens='' if br else 'ensures n%d == all%d.len(),\n' % (n, n))
            return head, e + 1
        cond = r.rng(i + 1, j)
        body = r.rng(j + 1, e)
        return '%s %s\n%s{ %s\n%s\n%s }\n%s' % (kind, cond, inv, ls, body, le, (af or '') + (';' if kind == 'while' else '')), e + 1

    def closure(r, i, b):
        toks = r.toks
        n = r.nclo; r.nclo += 1
        r.used_clo.add(n)
        if toks[i].s == '||': pats = []; j = i + 1
        else:
            j = i + 1; st = j; pats = []
            while True:
                if toks[j].s in ('(', '['): j = match(toks, j)
                elif toks[j].s in (',', '|'):
                    if j > st: pats.append((st, j))
                    st = j + 1
                    if toks[j].s == '|': break
                j += 1
            j += 1
        # body extent
        if toks[j].s == '{':
            e = match(toks, j) + 1
        else:
            e = j
            while e < b and toks[e].s not in (',', ';', ')', ']', '}'):
                if toks[e].s in OPEN: e = match(toks, e)
                e += 1
        spec = r.con.closures.get(n, '') if r.con else ''
        names = []; lets = []
        types = []
        head = ''; rest = ''
        if spec.strip():
            # first line: types | ret ; following lines: requires/ensures
            first, _, rest = spec.strip().partition('\n')
            tys, _, ret = first.partition('|')
            types = [x.strip() for x in split_top(tys)]
            ret = ret.strip()
        for q, (a0, b0) in enumerate(pats):
            p = text_of(r.src, toks, a0, b0)
            # an explicit type in the source wins
            if ':' in [t.s for t in toks[a0:b0]] and '::' not in [t.s for t in toks[a0:b0]]:
                c = [k for k in range(a0, b0) if toks[k].s == ':'][0]
                p = text_of(r.src, toks, a0, c)
                ty = fix_types(text_of(r.src, toks, c + 1, b0))
            else: ty = types[q] if q < len(types) else None
            if re.match(r'^[a-z_]\w*$', p) and p != '_':
                names.append(p + (': ' + ty if ty else ''))
                if spec.strip(): rest = re.sub(r'\bc%d\b' % q, p, rest)
            else:
                v = 'c%d_%d' % (n, q)
                names.append(v + (': ' + ty if ty else ''))
                if p != '_':
                    if p.startswith('&'): lets.append('let %s = *%s; ' % (p[1:].strip(), v))
                    else: lets.append('let %s = %s; ' % (p, v))
                if spec.strip(): rest = re.sub(r'\bc%d\b' % q, v, rest)
        saved_n = r.nclo
        body = r.rng(j, e)
        def args(t):
            for q, nm in enumerate(names): t = re.sub(r'\bc%d\b' % q, nm.split(':')[0], t)
            return t
        if r.con and n in r.con.closurepre: lets.append(args(r.con.closurepre[n]))
        if r.con and n in r.con.closurepost:
            body = 'let cout: %s = { %s };\n%s\ncout' % (ret, body, args(r.con.closurepost[n]))
        if spec.strip():
            return '|%s| -> (cr: %s)\n%s\n{ %s%s }' % (', '.join(names), ret, rest, ''.join(lets), body), e
        return '|%s| { %s%s }' % (', '.join(names), ''.join(lets), body), e

def split_top(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '(<[': d += 1
        if ch in ')>]': d -= 1
        if ch == ',' and d == 0: out.append(cur); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur)
    return out

def emit_fn(src, toks, f, con, external=False, vacuity=False):
    log = []
    rw = Rewriter(src, toks, f, con, log)
    # parameters
    a, b = f.par
    parts = []; st = a + 1; j = st; ang = 0
    while j <= b:
        s = toks[j].s
        if s in ('(', '[', '{') and j > a: j = match(toks, j)
        elif s == '<': ang += 1
        elif s == '>' : ang -= 1
        elif (s == ',' and ang == 0) or j == b:
            if j > st: parts.append((st, j))
            st = j + 1
        j += 1
    pars = []; lets = []; mutself = False
    for q, (x, y) in enumerate(parts):
        ts = [t.s for t in toks[x:y]]
        if ts == ['mut', 'self']: pars.append('self'); lets.append('let mut this = self;'); mutself = True; continue
        if 'self' in ts and ':' not in ts: pars.append(text_of(src, toks, x, y)); continue
        c = [k for k in range(x, y) if toks[k].s == ':' ][0]
        pat = text_of(src, toks, x, c); ty = text_of(src, toks, c + 1, y)
        if re.match(r'^(mut\s+)?[a-z_]\w*$', pat) and pat != '_': pars.append(text_of(src, toks, x, y))
        else:
            v = 'p%d' % q
            pars.append('%s: %s' % (v, ty))
            if pat != '_': lets.append('let %s = %s;' % (pat, v))
    head = text_of(src, toks, f.a, a)
    ret = ''
    if f.ret: ret = ' -> (%s: %s)' % (con.ret if con else 'r', text_of(src, toks, *f.ret))
    where = ''
    if f.where is not None:
        wend = f.body[0] if f.body else f.b
        where = '\n' + text_of(src, toks, f.where, wend)
        if not where.rstrip().endswith(','): where += ','
    spec = ('\n' + con.spec) if con and con.spec.strip() else ''
    sig = head + '(' + ', '.join(pars) + ')' + ret + where
    if con and con.calls:
        sig = re.sub(r'\bfn (\w+)', r'fn \1__calls', sig, count=1)
        m = re.search(r'\bFnMut\s*\(', sig)
        while m:
            d, e = 1, m.end()
            while d: d += {'(': 1, ')': -1}.get(sig[e], 0); e += 1
            a = sig[m.end():e-1]
            ar = re.match(r'\s*->\s*([\w:<>]+)', sig[e:])
            hr = "for<'cb> " if '&' in a else ''
            sig = sig[:m.start()] + hr + 'Calls<(%s,), Out = %s>' % (re.sub(r'&(?!\s*\')', "&'cb ", a), ar[1] if ar else '()') + sig[e + (ar.end() if ar else 0):]
            m = re.search(r'\bFnMut\s*\(', sig)
    if con and con.calls: spec = re.sub(r'\bCB\b', sorted(callbacks(src, toks, f))[0], spec)
    sig = fix_types(sig) + spec
    if f.body is None: return sig + ';', rw
    if external:
        return '#[verifier::external_body]\n' + sig + '{ unimplemented!() }', rw
    body = rw.rng(f.body[0] + 1, f.body[1]) if f.body[1] > f.body[0] + 1 else ''
    body = fix_types(body)
    if rw.cb:   # annotations name the callback CB and the names a loop pattern binds P<loop>_<position>
        cb = lambda t: re.sub(r'\bCB\b', sorted(rw.cb)[0], t)
        body = cb(re.sub(r'\bP(\d)_(\d)\b', lambda m: rw.pats[int(m[1])][int(m[2])] if int(m[2]) < len(rw.pats.get(int(m[1]), [])) else m[0], body))
        con = copy.copy(con); con.pre, con.post = cb(con.pre), cb(con.post)
    if con and con.over: body = re.sub(r'\b(\w+) ([-+]) (\w+)\b(?![.(\[:])', lambda m: '%s(%s, %s)' % ({'+': 'v_add', '-': 'v_sub'}[m[2]], m[1], m[3]), body)
    if con and con.opcalls: body = re.sub(r'\b([a-z_]\w*) ([-+*/]) ([a-z_]\w*)\b(?![.(\[])', lambda m: '%s(%s, %s)' % (OPC[m[2]], m[1], m[3]), body)
    if mutself: body = re.sub(r'\bself\b', 'this', body)
    pre = con.pre if con else ''
    if vacuity:
        body = 'let out: %s = { %s };\n%s\nassert(false); out' % (fix_types(text_of(src, toks, *f.ret)) if f.ret else '()', body, con.post)
    elif con and con.post.strip():
        body = 'let out: %s = { %s };\n%s\nout' % (fix_types(text_of(src, toks, *f.ret)) if f.ret else '()', body, con.post)
    txt = (con.attr + '\n' if con and con.attr else '') + sig + '\n{ ' + (ALWAYS if con else '') + ' '.join(lets) + pre + '\n' + body + ' }'
    # anchors: every loop/closure annotation must have found its place
    if con:
        for n in list(con.loops) + list(con.loopstart) + list(con.loopend) + list(con.after):
            if n not in rw.used_loops: raise Lost('%s: loop %d is gone' % (f.key, n))
        for n in list(con.closures) + list(con.closurepre) + list(con.closurepost):
            if n not in rw.used_clo: raise Lost('%s: closure %d is gone' % (f.key, n))
    return txt, rw

OPC = {'+': 'Add::add', '-': 'Sub::sub', '*': 'Mul::mul', '/': 'Div::div'}
ALWAYS = 'broadcast use {vec_len, vec_of_view, ordering_eq, ordering_obeys}; '
def shape(toks, f, con=None):
    """[loop keywords in order, number of closures, names called, how often each local the annotations name is bound]: what the annotations of a body hang on"""
    if f.body is None: return None
    loops, clo, calls = [], 0, set()
    for i in range(f.body[0] + 1, f.body[1]):
        t, p = toks[i], toks[i-1].s
        if t.k == 'id' and t.s in ('for', 'while', 'loop') and not (t.s == 'for' and toks[i+1].s == '<'): loops.append(t.s)
        if t.s in ('|', '||') and p in ('(', ',', '=', '{', ';', 'return', 'move', '=>'): clo += 1
        if t.k == 'id' and toks[i+1].s in ('(', '::'): calls.add(t.s)
    hints = ''
    if con: hints = '\n'.join([con.pre, con.post] + [x for d in (con.loops, con.loopstart, con.loopend, con.after, con.closures, con.closurepre, con.closurepost) for x in d.values()])
    hinted, bound, i = set(re.findall(r'[a-z_]\w*', hints)), {}, f.body[0] + 1
    while i < f.body[1]:
        t = toks[i]; e = None
        if t.s == 'let': e = ('=', ':', ';')
        elif t.s == 'for' and toks[i+1].s != '<': e = ('in',)
        elif t.s == '|' and toks[i-1].s in ('(', ',', '=', '{', ';', 'return', 'move', '=>'): e = ('|',)
        if e:
            j = i + 1
            while j < f.body[1] and toks[j].s not in e:
                if toks[j].k == 'id' and toks[j].s in hinted and toks[j].s != 'mut': bound[toks[j].s] = bound.get(toks[j].s, 0) + 1
                j += 1
            i = j
        i += 1
    return [loops, clo, sorted(calls), sorted(bound.items())]

def struct_text(src, toks, it):
    """a struct with every field public (specifications name fields)"""
    i = it.a + 2
    if toks[i].s == '<': i = skip_angles(toks, i)
    while toks[i].s not in ('(', '{', ';'): i += 1
    head = 'pub ' + fix_types(text_of(src, toks, it.a, i))
    if toks[i].s == ';': return head + ';'
    e = match(toks, i)
    parts, st, j, ang = [], i + 1, i + 1, 0
    while j <= e:
        s = toks[j].s
        if s in ('(', '[', '{'): j = match(toks, j)
        elif s == '<': ang += 1
        elif s == '>': ang -= 1
        elif (s == ',' and ang == 0) or j == e:
            if j > st: parts.append('pub ' + fix_types(text_of(src, toks, st, j)))
            st = j + 1
        j += 1
    tail = fix_types(text_of(src, toks, e + 1, it.b)) if it.b > e + 1 else ''
    return head + ' ' + toks[i].s + ', '.join(parts) + toks[e].s + ' ' + tail

def extract(src, contracts, prelude, externals=(), vacuity=False):
    """returns (text, info). info: functions verified / trusted / without contract, line map"""
    toks = lex(src)
    items = []
    parse_items(src, toks, 0, len(toks), items)
    for it in list(items):
        for f in getattr(it, 'fns', []):
            if f.body: items[items.index(it):items.index(it)] = nested(src, toks, f)
    fns, impls, tail, drops, structs = parse_contracts(contracts)
    out = []; info = dict(fns={}, lost=[], dropped=[], nocontract=[])
    def w(s): out.append(s)
    w('#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_braces, unused_unsafe, non_snake_case)]')
    w('use vstd::prelude::*; use vstd::std_specs::ops::*; use vstd::std_specs::cmp::*; use vstd::std_specs::core::IndexSpecImpl; use core::ops::*; use core::marker::PhantomData; use core::cmp::Ordering;')
    w('verus! {')
    w(prelude)
    w('// ---- extracted ----')
    seen_impl = set(); seen_fn = set()
    def dropped(key, derived):
        return derived or any(re.fullmatch(d, key) for d in drops)
    for it in items:
        if it.kind in ('struct', 'enum'):
            pre = '\n'.join(structs.get(it.name, []))
            if pre.strip() == 'drop': continue
            w(pre); w(struct_text(src, toks, it))
        elif it.kind == 'type':
            if re.match(r'(Vector|Matrix)\d+f', it.name) or it.name == 'FmtResult': continue
            w(fix_types(text_of(src, toks, it.a, it.b)))
        elif it.kind in ('impl', 'trait'):
            if dropped(it.key if it.kind == 'impl' else 'trait ' + it.key, getattr(it, 'derived', False)):
                info['dropped'].append(it.key); continue
            hdr = fix_types(text_of(src, toks, it.a, it.open))
            w(('pub ' if it.kind == 'trait' else '') + hdr + ' {')
            for (a, b) in it.rest:
                t = fix_types(text_of(src, toks, a, b))
                if it.key == 'ArrayLen': t = t.replace('AsRef<[T]> + AsMut<[T]>', 'ArrLike<T>')
                w(t)
            if it.kind == 'impl' and it.key.startswith('ArrayLen<T> for '): w('//@fn %s::len_ok\nproof fn len_ok() { reveal_nums(); }\n//@endfn' % it.key); info['fns'][it.key + '::len_ok'] = dict(external=False, contract=False)
            k = ('trait ' if it.kind == 'trait' else '') + it.key
            if k not in seen_impl and k in impls:
                w('\n'.join(impls[k]))
                for l in impls[k]:
                    if l.startswith('//@fn ') and it.kind == 'impl': info['fns'][l[6:]] = dict(external=False, contract=False)
            seen_impl.add(k)
            for f in it.fns:
                con = fns.get(f.key)
                seen_fn.add(f.key)
                if con is None: info['nocontract'].append(f.key)
                if con and con.mode == 'skip': continue
                ext = f.key in externals or con is None or con.mode == 'trusted'
                try:
                    txt, rw = emit_fn(src, toks, f, con, ext, vacuity)
                except Exception as e:
                    info['lost'].append((f.key, str(e)))
                    txt, rw = emit_fn(src, toks, f, con, True)
                    ext = True
                w('//@fn ' + f.key)
                w(txt)
                w('//@endfn')
                info['fns'][f.key] = dict(external=ext or f.body is None, contract=con is not None, shape=shape(toks, f, con), vac=vacuity)
                key2 = f.key + '#calls'; con2 = fns.get(key2)
                if con2:
                    seen_fn.add(key2); ext2 = key2 in externals
                    try: txt, rw = emit_fn(src, toks, f, con2, ext2, vacuity)
                    except Exception as e:
                        info['lost'].append((key2, str(e))); ext2 = True
                        txt = None
                    if txt: w('//@fn ' + key2); w(txt); w('//@endfn')
                    info['fns'][key2] = dict(external=ext2, contract=True, shape=shape(toks, f, con2), vac=vacuity)
            w('}')
        elif it.kind == 'fn':
            f = it.fns[0]
            con = fns.get(f.key)
            if con and con.mode == 'skip': continue
            ext = f.key in externals or con is None or con.mode == 'trusted'
            seen_fn.add(f.key)
            if con is None: info['nocontract'].append(f.key)
            try: txt, rw = emit_fn(src, toks, f, con, ext, vacuity)
            except Exception as e:
                info['lost'].append((f.key, str(e))); ext = True
                txt, rw = emit_fn(src, toks, f, con, True)
            info['fns'][f.key] = dict(external=ext, contract=con is not None, shape=shape(toks, f, con), vac=vacuity)
            w('//@fn ' + f.key); w(txt); w('//@endfn')
    w('// ---- lemmas and companions ----')
    w('\n'.join(tail))
    w('fn main() {}')
    w('}')
    for k in fns:
        if k not in seen_fn: info['lost'].append((k, 'function is gone'))
    for k in impls:
        if k not in seen_impl: info['lost'].append((k, 'impl is gone'))
    return '\n'.join(out), info

if __name__ == '__main__':
    import sys, os
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    src = open(sys.argv[1]).read()
    text, info = extract(src, open(here + '/verus/contracts.vc').read(), load_prelude(here + '/verus'))
    open(sys.argv[2], 'w').write(text)
    print('lost', info['lost']); print('dropped', info['dropped']); print('nocontract', len(info['nocontract']), info['nocontract'])
