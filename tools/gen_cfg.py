"""C19: mocks whose parts carry cfg attributes, in every configuration.

Disabled parts mention types that do not exist.  A driver per configuration
checks that every enabled part is there and verified on its own, and that
nothing is left of the disabled ones.
"""
import itertools

ON = ['all()', 'not(any())', 'unix', 'any(unix, windows)', 'all(not(feature = "nope"), target_os = "linux")', 'vp_on']
OFF = ['any()', 'not(all())', 'windows', 'all(unix, windows)', 'feature = "nope"', 'vp_off']

class Item:
    """sig: {vis}, {N} is '' or turns types into ones that do not exist;
    setup: statements that create an unsatisfied expectation in `{o}`;
    call: satisfies it"""
    def __init__(s, name, sig, exp, call, static=False, ffi=True, attr=''):
        s.name, s.sig, s.exp, s.call, s.static, s.attr = name, sig, exp, call, static, attr

METHODS = [
    Item('a', 'fn a(&self, x: {N}u32) -> {N}u32', 'm.expect_a().withf(|x| *x == 3).times(1).returning(|x| x + 1);', 'assert_eq!(m.a(3), 4);'),
    Item('r', 'fn r(&self) -> &{N}u32', 'm.expect_r().times(1).return_const(5u32);', 'assert_eq!(*m.r(), 5);'),
    Item('g', "fn g<T: {N}Into<u64> + 'static>(&self, t: T) -> u32", 'm.expect_g::<u8>().times(1).returning(|t| t as u32);', 'assert_eq!(m.g(7u8), 7);'),
    Item('s', 'fn s(x: {N}u32) -> {N}u32', 's.expect().times(1).returning(|x| x + 9);', 'assert_eq!({M}::s(3), 12);', static=True),
    Item('sg', "fn sg<T: {N}Into<u64> + 'static>(t: T) -> u32", 'sg.expect::<u8>().times(1).returning(|t| t as u32);', 'assert_eq!({M}::sg(11u8), 11);', static=True),
]
MORE = [
    Item('w', 'fn w(&mut self, x: &{N}str) -> &mut {N}u32', 'm.expect_w().withf(|x| x == "q").times(1).return_var(6u32);', 'assert_eq!(*m.w("q"), 6);'),
    Item('k', 'fn k<P: {N}AsRef<str>>(&self, p: P) -> u32', 'm.expect_k().withf(|p| p.as_ref() == "k").times(1).return_const(8u32);', 'assert_eq!(m.k("k"), 8);', attr='#[mockall::concretize] '),
    Item('s', 'fn s(x: {N}u32) -> {N}u32', 's.expect().times(1).returning(|x| x + 9);', 'assert_eq!({M}::s(3), 12);', static=True),
    Item('d', 'fn d(&self, x: &{N}str) -> Option<{N}String>', 'm.expect_d().times(1).returning(|x| Some(x.into()));', 'assert_eq!(m.d("x").unwrap(), "x");'),
]
ALL = METHODS + MORE[:2]
FNS = [
    Item('f1', 'fn f1(x: {N}u32) -> {N}u32', 'f1.expect().withf(|x| *x == 3).times(1).returning(|x| x + 1);', 'assert_eq!({M}::f1(3), 4);', static=True),
    Item('f2', "fn f2<T: {N}Into<u64> + 'static>(t: T) -> u32", 'f2.expect::<u8>().times(1).returning(|t| t as u32);', 'assert_eq!({M}::f2(7u8), 7);', static=True),
    Item('f3', 'fn f3<P: {N}AsRef<str>>(p: P) -> u32', 'f3.expect().times(1).return_const(8u32);', 'assert_eq!({M}::f3("k"), 8);', static=True, attr='#[mockall::concretize] '),
    Item('f4', "fn f4() -> &'static {N}str", 'f4.expect().times(1).return_const("x");', 'assert_eq!({M}::f4(), "x");', static=True),
    Item('f5', "fn f5(x: &mut {N}u32)", 'f5.expect().times(1).returning(|x| { *x += 1; });', '{ let mut x = 1; {M}::f5(&mut x); assert_eq!(x, 2); }', static=True),
]
def ffi(n):
    """foreign functions; their names are symbols, so every case needs its own"""
    return [Item(f.name + n, *(x.replace(f.name, f.name + n) for x in (f.sig, f.exp, f.call)), static=True) for f in FFI]
FFI = [
    Item('e1', 'fn e1(x: {N}u32) -> {N}u32', 'e1.expect().withf(|x| *x == 3).times(1).returning(|x| x + 1);', 'assert_eq!(unsafe { {M}::e1(3) }, 4);', static=True),
    Item('e2', 'fn e2(x: *const {N}u8) -> i64', 'e2.expect().times(1).returning(|x| x as i64);', 'assert_eq!(unsafe { {M}::e2(7 as *const u8) }, 7);', static=True),
    Item('e3', 'fn e3()', 'e3.expect().times(1).return_const(());', 'unsafe { {M}::e3() };', static=True),
]
# attributes that must not change anything
NEUTRAL = ['#[doc = "some text"]', '/// words\n', '/** words */', '#[allow(dead_code)]', '#[warn(unused)]', '#[inline]', '#[inline(always)]', '#[cold]', '#[must_use]',
           '#[expect(unused_variables)]', '#[doc(hidden)]', '#[cfg_attr(all(), allow(unused))]', '#[cfg_attr(any(), cfg(any()))]', '#[cfg_attr(all(), cfg(all()))]']

class Case:
    def __init__(s, key, before, mock, mockty, items, on, kind, traits=(), absent=()):
        s.key, s.before, s.mock, s.mockty, s.items, s.on, s.kind, s.traits, s.absent = key, before, mock, mockty, items, on, kind, traits, absent

def cfgs(i, st):
    """the attributes of an item in state st: plain, on, off, and two cfgs"""
    on, off = ON[i % len(ON)], OFF[i % len(OFF)]
    return {'plain': '', 'on': '#[cfg(%s)] ' % on, 'off': '#[cfg(%s)] ' % off, 'on+on': '#[cfg(%s)] #[cfg(%s)] ' % (on, ON[(i + 1) % len(ON)]),
            'on+off': '#[cfg(%s)] #[cfg(%s)] ' % (on, off), 'off+on': '#[cfg(%s)] #[doc = "x"] #[cfg(%s)] ' % (off, on),
            # two alternatives of one item
            'either': None}[st]
def enabled(st): return 'off' not in st

def states(n, tier):
    """All subsets of disabled items, with the others plain or explicitly enabled; and all
    configurations of one item (thorough: two) in another state"""
    seen = set()
    for other in ('plain', 'on') if tier != 'quick' else ('mixed',):
        for bits in itertools.product((0, 1), repeat=n):
            seen.add(tuple('off' if b else ('plain', 'on')[(i + sum(bits)) % 2] if other == 'mixed' else other for i, b in enumerate(bits)))
    more = ('on', 'off', 'on+on', 'on+off', 'off+on')
    for k in (1,) if tier == 'quick' else (1, 2):
        for w in itertools.combinations(range(n), k):
            for v in itertools.product(more, repeat=k):
                l = ['plain'] * n
                for a, b in zip(w, v): l[a] = b
                seen.add(tuple(l))
    return sorted(seen)

def decl(it, attr, on, vis='', body=False, conc=True, mock=True):
    N = '' if on else 'nope::'
    sig = it.sig.replace('{N}', N)
    if not on: sig = sig.replace('&nope::str', '&nope::Str').replace('&self', '&self')
    b = ' { unimplemented!() }' if body else ';'
    return attr + (it.attr if conc else '') + vis + sig + b

def driver(c, d):
    """The statements of a case; c: Case"""
    meths = [it for it in c.items if not it.static and c.on[it.name]]
    stats = [it for it in c.items if it.static and c.on[it.name]]
    off = [it for it in c.items if not c.on[it.name]]
    mod = c.kind in ('mod',)
    M = c.mockty
    ctx = lambda it: 'let %s = %s::%s_context();' % (it.name, M, it.name)
    new = '' if mod else 'let mut m = %s::new();' % M
    call = lambda it: it.call.replace('{M}', M if not c.traits or mod else '<%s>' % M)
    o = []
    # everything that is enabled works together
    o.append('{ %s %s %s %s %s }' % (new, ' '.join(ctx(i) for i in stats), ' '.join(i.exp for i in meths + stats), ' '.join(call(i) for i in meths + stats), 'ck(true, "");'))
    # every method is verified on its own, by a drop and by a checkpoint, and counts its calls
    for it in meths:
        o.append('{ %s %s panics("%s: a missing call at drop", move || drop(m)); }' % (new, it.exp, it.name))
        o.append('{ %s %s panics("%s: a missing call at a checkpoint", || m.checkpoint()); silent("%s: after the checkpoint", move || drop(m)); }' % (new, it.exp, it.name, it.name))
        o.append('{ %s %s %s m.checkpoint(); panics("%s: expectations are gone after a checkpoint", move || { %s drop(m); }); }' % (new, it.exp, call(it), it.name, call(it)))
        o.append('{ %s panics("%s: a call without expectation", move || { %s drop(m) }); }' % (new, it.name, call(it)))
    for it in stats:
        o.append('{ %s %s panics("%s: a missing call when the context is dropped", move || drop(%s)); }' % (ctx(it), it.exp, it.name, it.name))
        o.append('{ %s %s panics("%s: a missing call at a checkpoint of the context", || %s.checkpoint()); }' % (ctx(it), it.exp, it.name, it.name))
        if mod:
            o.append('{ %s %s panics("%s: a missing call at a checkpoint of the module", || %s::checkpoint()); }' % (ctx(it), it.exp, it.name, M))
            o.append('{ %s %s %s %s::checkpoint(); panics("%s: expectations are gone after a checkpoint of the module", || { %s }); }' % (ctx(it), it.exp, call(it), M, it.name, call(it)))
        o.append('{ panics("%s: a call without expectation", || { %s }); }' % (it.name, call(it)))
    # nothing is left of what is disabled
    probes = ''
    if mod:
        names = [i.name + x for i in off for x in ('', '_context')] + ['__mock_' + i.name for i in off if 0]
        if names:
            probes = 'mod probe { use super::*; %s }' % ' '.join('pub fn %s() -> Absent { Absent }' % n for n in names)
            o.append('{ use probe::*; { use %s::*; %s } }' % (M, ' '.join('let Absent = %s(); ck(true, "");' % n for n in names)))
    else:
        names = [('expect_' + i.name, 0) for i in off if not i.static] + [(i.name + '_context', 1) for i in off if i.static] + [(i.name, i.static) for i in off]
        if names:
            probes = 'trait Probe: Sized { %s } impl<X> Probe for X {}' % ' '.join('fn %s(%s) -> Absent { Absent }' % (n, '' if st else '&mut self') for n, st in names)
            o.append('{ %s %s }' % (new, ' '.join('let Absent = %s; ck(true, "");' % ('%s::%s()' % (M, n) if st else '(&mut m).%s()' % n) for n, st in names)))
    return probes, 'pub fn t%d() { ck(true, ""); %s }' % (d, '\n'.join(o))

def cases(tier):
    """-> Case"""
    H = []
    def sub(st, items): return {it.name: enabled(s) for it, s in zip(items, st)}
    def key(h, st, items): return '%s | %s' % (h, ', '.join('%s %s' % (it.name, s) for it, s in zip(items, st) if s != 'plain') or 'all plain')
    def lines(st, items, **k): return ' '.join(decl(it, cfgs(i, s), enabled(s), **k) for i, (it, s) in enumerate(zip(items, st)))
    def on_only(st, items, **k): return ' '.join(decl(it, '', True, conc=False, **k) for it, s in zip(items, st) if enabled(s))
    for M, st in [(x, st) for x in (METHODS, MORE) for st in states(len(x), tier)]:
        on = sub(st, M)
        yield Case(key('automock trait', st, M), '', '#[automock] pub trait Tr { %s }' % lines(st, M), 'MockTr', M, on, 'trait')
        yield Case(key('automock generic trait', st, M), '', "#[automock] pub trait Tr<Z: 'static> { fn z(&self, z: Z); %s }" % lines(st, M), 'MockTr::<u8>', M, on, 'trait')
        yield Case(key('automock impl', st, M), '', 'pub struct S; #[automock] impl S { %s }' % lines(st, M, vis='pub ', body=True), 'MockS', M, on, 'inherent')
        yield Case(key('automock impl Trait for', st, M), 'pub trait Tr { %s } pub struct S;' % on_only(st, M), '#[automock] impl Tr for S { %s }' % lines(st, M, body=True), 'MockS', M, on, 'trait')
        yield Case(key('mock!', st, M), '', 'mock! { pub S { %s } }' % lines(st, M, vis='pub '), 'MockS', M, on, 'inherent')
        yield Case(key('mock! generic', st, M), '', "mock! { pub S<Z: 'static> { pub fn z(&self, z: Z); %s } }" % lines(st, M, vis='pub '), 'MockS::<u8>', M, on, 'inherent')
        yield Case(key('mock! impl Trait', st, M), 'pub trait Tr { %s }' % on_only(st, M), 'mock! { pub S {} impl Tr for S { %s } }' % lines(st, M), 'MockS', M, on, 'trait')
    # whole impls
    groups = [('I', [0, 3]), ('J', [1, 2, 4]), ('K', [5, 6])]
    bl = [st for st in itertools.product(('plain', 'on', 'off', 'on+on', 'on+off', 'off+on'), repeat=3)]
    for st in bl:
        for own in ('', 'fn own(&self);') if tier != 'quick' or 'plain' not in st else ('',):
            on = {}
            before, impls = '', ''
            for gi, ((n, idx), s) in enumerate(zip(groups, st)):
                its = [ALL[i] for i in idx]
                for it in its: on[it.name] = enabled(s)
                if enabled(s): before += 'pub trait %s { %s } ' % (n, ' '.join(decl(it, '', True, conc=False) for it in its))
                impls += '%simpl %s for S { %s } ' % (cfgs(gi, s), n if enabled(s) else 'nope::' + n, ' '.join(decl(it, '', enabled(s)) for it in its))
            its = sorted((ALL[i] for _, idx in groups for i in idx), key=lambda x: x.name)
            yield Case('mock! with cfg on impls%s | %s' % (' and an own method' if own else '', ', '.join('%s %s' % (g[0], s) for g, s in zip(groups, st))), before,
                       'mock! { pub S { %s } %s}' % (own, impls), 'MockS', its, on, 'trait')
            # two of a kind: one trait with alternative cfgs
    # one trait, implemented in one of several ways
    for which in range(3):
        for order in itertools.permutations(range(3)):
            alts = [('u32', 'x + 1', '3', '4'), ('u64', 'x + 2', '3', '5'), ('&str', 'x.len() as u32', '"abc"', '3')]
            for host in ('methods', 'impls', 'automock trait', 'automock mod'):
                ds = []
                for i in order:
                    t, body, arg, res = alts[i]
                    rt = 'u32' if t == '&str' else t
                    ds.append('#[cfg(%s)] ' % (ON if i == which else OFF)[i] + ('impl I for S { fn a(&self, x: %s) -> %s; }' % (t, rt) if host == 'impls' else '%sfn a(%sx: %s) -> %s%s' % ('pub ' if host in ('methods', 'automock mod') else '', '' if host == 'automock mod' else '&self, ', t, rt, ' { unimplemented!() }' if host == 'automock mod' else ';')))
                t, body, arg, res = alts[which]
                ds = ' '.join(ds)
                before = '' if host != 'impls' else 'pub trait I { fn a(&self, x: %s) -> %s; }' % (t, 'u32' if t == '&str' else t)
                mock = {'methods': 'mock! { pub S { %s } }', 'impls': 'mock! { pub S {} %s }', 'automock trait': '#[automock] pub trait Tr { %s }', 'automock mod': '#[automock] pub mod m { %s }'}[host] % ds
                if host == 'automock mod':
                    it = Item('a', '', 'a.expect().times(1).returning(|x| %s);' % body, 'assert_eq!({M}::a(%s), %s);' % (arg, res), static=True)
                    yield Case('alternatives: %s | %s of %s' % (host, which, order), before, mock, 'mock_m', [it], {'a': True}, 'mod')
                else:
                    it = Item('a', '', 'm.expect_a().times(1).returning(|x| %s);' % body, 'assert_eq!(m.a(%s), %s);' % (arg, res))
                    yield Case('alternatives: %s | %s of %s' % (host, which, order), before, mock, 'MockTr' if host == 'automock trait' else 'MockS', [it], {'a': True}, 'trait')
    for st in states(len(FNS), tier):
        on = sub(st, FNS)
        yield Case(key('automock mod', st, FNS), '', '#[automock] pub mod m { %s }' % lines(st, FNS, vis='pub ', body=True), 'mock_m', FNS, on, 'mod')
        # static methods in the same places
    others = [('pub type Ty = u32;', 'pub type Ty = nope::Nope;', 'Ty'), ('pub const C: u32 = 3;', 'pub const C: nope::Nope = 3;', 'C'), ('pub use std::vec::Vec as W;', 'pub use nope::Nope as W;', 'W')]
    for st in itertools.product(('plain', 'on', 'off'), repeat=4):
        its = FNS[:1]
        text = ' '.join(cfgs(i, s) + (o[0] if enabled(s) else o[1]) for i, (o, s) in enumerate(zip(others, st)))
        use = ' '.join(x for x, s in zip(('{ let _: mock_m::Ty = 1u32; }', 'assert_eq!(mock_m::C, 3);', '{ let _: mock_m::W<u8> = vec![]; }'), st) if enabled(s))
        it = Item('f1', its[0].sig, its[0].exp, its[0].call + use, static=True)
        yield Case('automock mod with other items | %s' % ', '.join(st), '', '#[automock] pub mod m { %s %s }' % (text, lines(st[3:], its, vis='pub ', body=True)), 'mock_m', [it], {'f1': enabled(st[3])}, 'mod')
    for st in states(len(FFI), tier):
        for abi in ('C', 'Rust'):
            its = ffi('_%s%s' % (abi.lower(), ''.join(str(('plain', 'on', 'off', 'on+on', 'on+off', 'off+on').index(x)) for x in st)))
            yield Case(key('automock mod with extern "%s"' % abi, st, FFI), '', '#[automock] pub mod m { extern "%s" { %s } }' % (abi, lines(st, its, vis='pub ')), 'mock_m', its, sub(st, its), 'mod')
    # the whole item
    for i, s in enumerate(('on', 'on+on')):
        M, F = METHODS, FNS
        pl = ['plain'] * 9
        on = sub(pl, M)
        yield Case('cfg on an automock trait | ' + s, '', '#[automock] %spub trait Tr { %s }' % (cfgs(i, s), lines(pl, M)), 'MockTr', M, on, 'trait')
        yield Case('cfg on an automock impl | ' + s, '', 'pub struct S; #[automock] %simpl S { %s }' % (cfgs(i, s), lines(pl, M, vis='pub ', body=True)), 'MockS', M, on, 'inherent')
        yield Case('cfg on a mock! | ' + s, '', 'mock! { %spub S { %s } }' % (cfgs(i, s), lines(pl, M, vis='pub ')), 'MockS', M, on, 'inherent')
        yield Case('cfg on an automock mod | ' + s, '', '#[automock] %spub mod m { %s }' % (cfgs(i, s), lines(pl, F, vis='pub ', body=True)), 'mock_m', F, sub(pl, F), 'mod')
    for i, s in enumerate(('off', 'on+off', 'off+on')):
        pl = ['off'] * 9
        empty = lambda n: 'mod absent { pub struct %s; } use absent::*;' % n
        for h, before, text, n in (
                ('automock trait', '', '#[automock] %spub trait Tr { %s }' % (cfgs(i, s), ' '.join(decl(it, '', False) for it in METHODS)), 'MockTr'),
                ('automock impl', '', '#[automock] %simpl nope::S { %s }' % (cfgs(i, s), ' '.join(decl(it, '', False, body=True) for it in METHODS)), 'MockS'),
                ('automock mod', '', '#[automock] %spub mod m { %s }' % (cfgs(i, s), ' '.join(decl(it, '', False, body=True) for it in FNS)), 'mock_m')):
            yield Case('cfg on an %s | %s' % (h, s), empty(n), text, n, [], {}, 'whole')
    # attributes without effect
    sets = [(a,) for a in range(len(NEUTRAL))] + list(itertools.permutations(range(len(NEUTRAL)), 2))
    for k, w in enumerate(sets):
        at = ' '.join(NEUTRAL[x] for x in w) + ' '
        M, F = METHODS, FNS
        one = len(w) == 1
        name = ' '.join(NEUTRAL[x].strip() for x in w)
        allon = {it.name: True for it in M}
        L = lambda its, **kw: ' '.join(decl(it, at, True, **kw) for it in its)
        hs = [('automock trait', '', '#[automock] pub trait Tr { %s }' % L(M), 'MockTr', 'trait'),
              ('automock impl', '', 'pub struct S; #[automock] impl S { %s }' % L(M, vis='pub ', body=True), 'MockS', 'inherent'),
              ('mock!', '', 'mock! { pub S { %s } }' % L(M, vis='pub '), 'MockS', 'inherent'),
              ('mock! impl Trait', 'pub trait Tr { %s }' % ' '.join(decl(it, '', True, conc=False) for it in M), 'mock! { pub S {} impl Tr for S { %s } }' % L(M), 'MockS', 'trait')]
        for j, (h, before, text, mt, kind) in enumerate(hs):
            if not one and j != k % 4 and tier == 'quick': continue
            yield Case('attributes in %s | %s' % (h, name), before, text, mt, M, allon, kind)
        if one or k % 3 == 0 or tier != 'quick':
            yield Case('attributes in automock mod | ' + name, '', '#[automock] pub mod m { %s }' % L(F, vis='pub ', body=True), 'mock_m', F, {it.name: True for it in F}, 'mod')
