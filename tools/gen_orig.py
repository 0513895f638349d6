"""C25: #[automock] leaves the item that it is applied to as it is.

Every generated item occurs twice, with and without #[automock]; the same
statements use both (the originals, not the mocks) and must have the same
effects.  Attributes that have no effects at run time are observed through the
lints that they cause or silence.
"""
import itertools

class Ft:
    """A feature of an item.
    decl: items of a trait; body: what an implementor has to add (or, for
    inherent impls and modules, the whole).  use: statements; `o` is the object,
    {P} is the path for static functions, {O} the expression of the object.
    hosts: letters; t trait, i inherent impl, x impl of a trait, m module, f foreign"""
    def __init__(s, name, decl, body, use, hosts='tixm', concretize=False, nodyn=False, extra='', attrs=''):
        s.attrs = attrs
        s.name, s.decl, s.body, s.use, s.hosts, s.nodyn, s.extra = name, decl, body, use, hosts, nodyn, extra

def meth(name, sig, body, use, hosts='tixm', attrs='', nodyn=False, decl=None, extra=''):
    """a method with the same signature everywhere"""
    return Ft(name, attrs + (decl or sig) + ';', attrs + sig + ' { ' + body + ' }', use, hosts, nodyn=nodyn, extra=extra, attrs=attrs)

def call(e): return 'l(&(%s));' % e

# {s}, {ms} and {self.} adapt a method to a function of a module; {v} is `pub` where allowed
F = [
    meth('plain', '{v}fn plain({s}, x: u32) -> u32', '{self}.0 + x', call('{o}plain({O}3)')),
    meth('stat', '{v}fn stat(x: u32) -> u32', 'x * 3', call('{P}stat(5)'), nodyn=True),
    meth('mutself', '{v}fn mutself({ms}, x: u32)', '{self}.0 += x;', '{o}mutself({MO}4); ' + call('o.0')),
    meth('byval', '{v}fn byval(self, x: u32) -> u32', 'let S(q) = self.into(); q + x', call('{P}byval(S(o.0).into(), 1)'), 'ix', nodyn=True),
    meth('boxed', '{v}fn boxed(self: Box<Self>) -> u32', '7', call('Box::new(S(5)).boxed()'), 'tix'),
    meth('generic', "{v}fn generic<T: Into<u64> + 'static>({s}, t: T) -> u64", 't.into() + {self}.0 as u64', call('{o}generic::<u8>({O}3)') + call('{o}generic({O}4u32)'), nodyn=True),
    meth('where_', "{v}fn where_<T>({s}, t: T) -> String where T: std::fmt::Debug + 'static", 'format!("{:?}", t)', call('{o}where_({O}"x")'), nodyn=True),
    meth('conc', '{v}fn conc<Q: AsRef<str>>({s}, q: Q) -> usize', 'q.as_ref().len()', call('{o}conc({O}"abc")') + call('{o}conc({O}String::from("abcd"))'), attrs='{conc}', nodyn=True),
    meth('life', "{v}fn life<'a>({sa}, x: &'a u32) -> u32", 'if {self}.0 > *x { *x } else { {self}.0 }', call('{o}life({O}&4)') + call('{o}life({O}&400)')),
    meth('mutpat', '{v}fn mutpat({s}, mut x: u32) -> u32', 'x += {self}.0; x', call('{o}mutpat({O}6)'), decl='fn mutpat(&self, x: u32) -> u32'),
    meth('under', '{v}fn under({s}, _x: u32) -> u32', '_x', call('{o}under({O}2)')),
    meth('unsafe_', '{v}unsafe fn unsafe_({s}, x: *const u32) -> u32', '*x + 1', call('unsafe { {o}unsafe_({O}&8) }')),
    meth('extern_', '{v}extern "C" fn extern_({s}, x: u32) -> u32', 'x + 2', call('{o}extern_({O}8)')),
    meth('async_', '{v}async fn async_({s}, x: u32) -> u32', 'x + {self}.0', call('block_on({o}async_({O}9))'), 'im', nodyn=True),
    meth('itr', '{v}fn itr({s}, x: u32) -> impl Iterator<Item = u32>', '0..x', call('{o}itr({O}3).collect::<Vec<_>>()'), 'tim', nodyn=True),
    meth('boxdyn', '{v}fn boxdyn({s}, f: Box<dyn Fn(u32) -> u32>) -> Box<dyn Fn(u32) -> u32>', 'Box::new(move |x| f(x) + 1)', call('{o}boxdyn({O}Box::new(|x| x * 2))(5)'), 'i'),
    meth('clos', "{v}fn clos<G: Fn(u32) -> u32 + Send + 'static>({s}, g: G) -> u32", 'g({self}.0)', call('{o}clos({O}|x| x + 100)'), nodyn=True),
    meth('refret', '{v}fn refret({s}) -> &u32', '&{self}.0', call('{o}refret({O0})'), 'tix'),
    meth('mutret', '{v}fn mutret({ms}) -> &mut u32', '&mut {self}.0', '*{o}mutret({MO0}) += 50; ' + call('o.0'), 'tix'),
    meth('raw', '{v}fn r#match({s}, r#type: u32) -> u32', 'r#type', call('{o}r#match({O}6)')),
    meth('unit', '{v}fn unit({s})', 'l(&"unit");', '{o}unit({O0});'),
    meth('recursive', '{v}fn recursive({s}, n: u32) -> u32', 'if n == 0 { 0 } else { {rec} + n }', call('{o}recursive({O}4)')),
    meth('located', '{v}fn located({s}) -> u32', 'std::panic::Location::caller().column()', call('{o}located({O0})'), attrs='#[track_caller] '),
    meth('must', '{v}fn must({s}) -> u32', '1', '#[expect(unused_must_use)] { {o}must({O0}); }', attrs='#[must_use] '),
    meth('must_cfg', '{v}fn must_cfg({s}) -> u32', '1', '#[expect(unused_must_use)] { {o}must_cfg({O0}); }', attrs='#[cfg_attr(all(), must_use = "x")] '),
    meth('depr', '{v}fn depr({s}) -> u32', '2', '#[expect(deprecated)] ' + call('{o}depr({O0})'), attrs='#[deprecated(note = "x")] '),
    meth('doc', '{v}fn doc({s}) -> u32', '3', call('{o}doc({O0})'), attrs='/// Some words\n#[doc(hidden)] '),
    meth('allow', '{v}fn Allow({s}) -> u32', '4', call('{o}Allow({O0})'), attrs='#[allow(non_snake_case)] '),
    meth('expect', '{v}fn Expected({s}) -> u32', '4', call('{o}Expected({O0})'), 'i', attrs='#[expect(non_snake_case)] '),
    meth('cfg_on', '{v}fn cfg_on({s}) -> u32', '5', call('{o}cfg_on({O0})'), attrs='#[cfg(all())] '),
    Ft('cfg_alt', '#[cfg(any())] fn alt(&self) -> Nope; #[cfg(all())] fn alt(&self) -> u32;',
       '#[cfg(any())] {v}fn alt({s}) -> Nope { } #[cfg(all())] {v}fn alt({s}) -> u32 { 6 }', call('{o}alt({O0})'), 'tim'),
    # traits only
    Ft('default', 'fn base(&self) -> u32; fn dflt(&self, x: u32) -> u32 { self.base() * 2 + x }', 'fn base(&self) -> u32 { self.0 }', call('o.dflt(1)'), 't'),
    Ft('overridden', 'fn over(&self) -> u32 { 1 }', 'fn over(&self) -> u32 { 2 }', call('o.over()'), 't'),
    Ft('dfltpat', 'fn dfltpat(&self, mut x: u32) -> u32 { x += 1; x }', '', call('o.dfltpat(1)'), 't'),
    Ft('dfltself', 'fn dfltself(&self) -> u32 where Self: Sized { Self::sstat() } fn sstat() -> u32 where Self: Sized { 12 }', '', call('o.dfltself()'), 't', nodyn=True),
    Ft('dfltmust', '#[must_use] fn dfltmust(&self) -> u32 { 9 }', '', '#[expect(unused_must_use)] { o.dfltmust(); }', 't'),
    Ft('const', 'const K: u32 = 1; const D: u32 = 3;', 'const K: u32 = 8;', call('<S as {Tr}>::K + <S as {Tr}>::D'), 't', nodyn=True),
    # impls only
    Ft('iconst', 'const K: u32;', '{v}const K: u32 = 8;', call('<{St}>::K'), 'ix', nodyn=True),
    Ft('privm', '', 'fn private(&self) -> u32 { self.0 * 7 } pub(self) fn private2(x: u32) -> u32 { x } pub fn public(&self) -> u32 { self.private() + Self::private2(1) }', call('o.public()'), 'i'),
    Ft('newm', '', 'pub fn new(x: u32) -> Self { S(x + 1).into() }', call('S::from(<{St}>::new(4)).0'), 'i'),
    Ft('builder', '', 'pub fn add(mut self, x: u32) -> Self { self.0 += x; self }', call('<{St}>::add(S(4).into(), 5).0'), 'i'),
    # modules only
    Ft('items', '', 'pub const C: u32 = 1; pub static ST: u32 = 2; pub use std::collections::BTreeMap as Map; pub type Al = Vec<S>; impl Outer { pub fn get(&self) -> u32 { self.0 + C } } extern crate std as xstd;',
       call('inner::C + inner::ST') + call('Outer(3).get()') + call('inner::Map::<u32, u32>::new()') + call('inner::Al::new()'), 'm'),
    Ft('privf', '', 'fn privf(x: u32) -> u32 { x + 1 } pub fn pubf(x: u32) -> u32 { privf(x) } pub(super) fn supf() -> u32 { 8 } pub(crate) fn cratef() -> u32 { 9 } pub(in super) fn inf() -> u32 { 10 }',
       call('inner::pubf(4) + inner::supf() * 100 + inner::cratef() * 1000 + inner::inf()'), 'm'),
    Ft('statev', '', 'static N: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0); pub fn next() -> u32 { N.fetch_add(1, std::sync::atomic::Ordering::Relaxed) }', call('(inner::next(), inner::next())'), 'm'),
]
NAMES = {f.name for f in F}

# name -> (kind, before, attribute's arguments, head of the item, implementor)
HOSTS = {
    'trait': ('t', '', '', 'pub trait Tr', 'impl Tr for S', {}),
    'unsafe trait': ('t', '', '', 'pub unsafe trait Tr', 'unsafe impl Tr for S', {}),
    'trait: Supertrait': ('t', 'pub trait Sup { fn sup(&self) -> u32; } impl Sup for S { fn sup(&self) -> u32 { 77 } }', '', 'pub trait Tr: Sup', 'impl Tr for S', {'use': call('o.sup()'), 'manual': 1}),
    'generic trait': ('t', '', '', "pub trait Tr<Z: 'static>", 'impl Tr<u8> for S', {'Tr': 'Tr<u8>', 'decl': 'fn z(&self, z: Z) -> Z;', 'body': 'fn z(&self, z: u8) -> u8 { z + 1 }', 'use': call('o.z(1)')}),
    'trait with type': ('t', '', '(type A = u32;)', 'pub trait Tr', 'impl Tr for S', {'Tr': 'Tr<A = u32>', 'TrQ': 'Tr', 'decl': "type A: std::fmt::Debug + 'static; fn a(&self, x: Self::A) -> Self::A;", 'body': 'type A = u32; fn a(&self, x: u32) -> u32 { x + 2 }', 'use': call('o.a(1)')}),
    'deprecated trait': ('t', '', '', '#[deprecated] pub trait Tr', '#[allow(deprecated)] impl Tr for S', {'check': '#[expect(deprecated)] fn chk<X: Tr>() {}', 'quiet': 1}),
    'async trait': ('t', '', '', '#[async_trait::async_trait] pub trait Tr', '#[async_trait::async_trait] impl Tr for S', {'decl': 'async fn asy(&self, x: u32) -> u32;', 'body': 'async fn asy(&self, x: u32) -> u32 { x + 11 }', 'use': call('block_on(o.asy(3))'), 'only': ('plain', 'default', 'mutself', 'generic')}),
    'impl': ('i', '', '', 'impl S', None, {}),
    'generic impl': ('i', "pub struct G<Z>(pub u32, pub std::marker::PhantomData<Z>); impl<Z> From<S> for G<Z> { fn from(s: S) -> Self { G(s.0, std::marker::PhantomData) } } impl<Z> From<G<Z>> for S { fn from(s: G<Z>) -> Self { S(s.0) } }", '', "impl<Z: 'static> G<Z>", None, {'St': 'G<u8>'}),
    'impl Trait for': ('x', 'pub trait Tr { {decls} }', '', 'impl Tr for S', None, {}),
    'impl Trait<u8> for': ('x', 'pub trait Tr<Z> { fn z(&self, z: Z) -> Z; {decls} }', '', 'impl Tr<u8> for S', None, {'body': 'fn z(&self, z: u8) -> u8 { z + 1 }', 'use': call('o.z(1)')}),
    'impl Trait with type for': ('x', 'pub trait Tr { type A; fn a(&self, x: Self::A) -> Self::A; {decls} }', '', 'impl Tr for S', None, {'body': 'type A = u32; fn a(&self, x: u32) -> u32 { x + 2 }', 'use': call('o.a(1)')}),
    'mod': ('m', '', '', 'pub mod inner', None, {}),
    'private mod': ('m', '', '', 'mod inner', None, {}),
    'pub(crate) mod': ('m', '', '', '#[allow(dead_code)] pub(crate) mod inner', None, {}),
}

class Case:
    def __init__(s, key, text, drv): s.key, s.text, s.drv = key, text, drv

def ok(host, fs):
    k, x = HOSTS[host][0], HOSTS[host][5]
    if any(k not in f.hosts for f in fs): return False
    if 'only' in x and any(f.name not in x['only'] for f in fs): return False
    n = {f.name for f in fs}
    if k == 'x' and n & {'expect', 'depr'}: return False
    if host == 'generic impl' and n & {'boxed', 'builder0'}: return False
    return True

def case(host, fs):
    k, before, args, head, imp, x = HOSTS[host]
    mod = k == 'm'
    St = x.get('St', 'S')
    Tr = x.get('TrQ', x.get('Tr', 'Tr'))
    P = {'t': '<S as %s>::' % Tr, 'x': 'S::', 'i': '<%s>::' % St, 'm': 'inner::'}[k]
    def sub(t, mocked):
        for a, b in (('{v}', 'pub ' if k in 'im' else ''), ('{conc}', '#[mockall::concretize] ' if mocked else ''),
                     ('{sa}', "this: &'a S" if mod else "&'a self"), ('{s}', 'this: &S' if mod else '&self'), ('{ms}', 'this: &mut S' if mod else '&mut self'),
                     ('{self}', 'this' if mod else 'self'), ('{rec}', '{P}recursive(this, n - 1)'.replace('{P}', '') if mod else 'self.recursive(n - 1)'),
                     ('{o}', 'inner::' if mod else 'o.'), ('{O}', '&o, ' if mod else ''), ('{O0}', '&o' if mod else ''), ('{MO}', '&mut o, ' if mod else ''), ('{MO0}', '&mut o' if mod else ''),
                     ('{P}', P), ('{Tr}', Tr), ('{St}', St)):
            t = t.replace(a, b)
        return t
    def half(mocked):
        attr = '#[mockall::automock%s] ' % args if mocked else ''
        o = ['#[derive(Debug, Clone, PartialEq)] pub struct S(pub u32); pub struct Outer(pub u32);']
        decls = ' '.join(f.decl[len(f.attrs):] if k == 'x' and f.name not in ('must', 'must_cfg', 'located') else f.decl for f in fs)
        if k == 'x': decls = decls.replace('const K: u32;', 'const K: u32;')
        o.append(sub(before.replace('{decls}', decls.replace('{conc}', '')), mocked))
        bodies = ' '.join(f.body[len(f.attrs):] if k == 't' and f.attrs != '#[track_caller] ' else f.body for f in fs)
        if k == 't':
            o.append(attr + head + ' { %s %s }' % (x.get('decl', ''), sub(decls, mocked)))
            o.append(imp + ' { %s %s }' % (x.get('body', ''), sub(bodies, False)))
        elif k in 'ix':
            o.append(attr + head + ' { %s %s }' % (x.get('body', ''), sub(bodies, mocked)))
        else:
            o.append(attr + head + ' { use super::*; %s }' % sub(bodies, mocked))
        o.append(x.get('check', ''))
        use = ' '.join(sub(f.use, mocked) for f in fs)
        new = '%s::from(S(20))' % St if St != 'S' else 'S(20)'
        if St != 'S': new = '<%s>::from(S(20))' % St
        o.append('pub fn run() { let mut o = %s; %s %s }' % (new, x.get('use', ''), use))
        if k == 't' and not any(f.nodyn for f in fs):
            u = use + x.get('use', '')
            if 'S::' not in u and 'Box::new(S' not in u and 'o.0' not in u:
                tr = x.get('Tr', 'Tr')
                o.append('pub fn run_dyn() { let mut s = S(20); let o: &mut dyn %s = &mut s; %s %s }' % (tr, x.get('use', ''), use))
            else: o.append('pub fn run_dyn() {}')
        else: o.append('pub fn run_dyn() {}')
        return '\n'.join(o)
    key = '%s | %s' % (host, ', '.join(f.name for f in fs) or 'empty')
    lints = '#[warn(deprecated, unused_must_use)] #[deny(unfulfilled_lint_expectations)]'
    if x.get('quiet'): lints = '#[allow(deprecated)] ' + lints.replace('deprecated, ', '')
    manual = x.get('manual')
    text = []
    for nm, mk in (('plain', False), ('mocked', True)):
        if manual and mk:
            # supertraits require mock!; automock must still leave the item alone
            h = half(True).replace('pub trait Sup', 'pub trait Sup', 1) + '\nimpl Sup for MockTr { fn sup(&self) -> u32 { 1 } }'
        else: h = half(mk)
        text.append('%s pub mod %s { use super::super::*;\n%s }' % (lints, nm, h))
    return Case(key, text, '{mod}::plain::run, {mod}::mocked::run, {mod}::plain::run_dyn, {mod}::mocked::run_dyn')

# quick: all pairs only with these hosts, otherwise pairs with these features
FULL = ('trait', 'impl', 'impl Trait for', 'mod')
PAIRED = {'plain', 'stat', 'generic', 'default', 'must'}
def cases(tier):
    for h in HOSTS:
        fs = [f for f in F if ok(h, [f])]
        yield case(h, [])
        for f in fs: yield case(h, [f])
        for a, b in itertools.permutations(fs, 2):
            if a.name == b.name or not ok(h, [a, b]): continue
            if tier == 'quick' and (F.index(a) > F.index(b) or h not in FULL and not {a.name, b.name} & PAIRED): continue
            if {a.name, b.name} == {'items', 'itemfn'}: pass
            yield case(h, [a, b])

PRELUDE = '''#![allow(warnings)]
use std::cell::RefCell;
thread_local!(static LOG: RefCell<Vec<String>> = RefCell::new(vec![]));
pub fn l(x: &dyn std::fmt::Debug) { LOG.with(|v| v.borrow_mut().push(format!("{x:?}"))) }
pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
    loop { if let std::task::Poll::Ready(x) = f.as_mut().poll(&mut cx) { return x; } }
}
fn take(f: fn()) -> Vec<String> {
    if let Err(e) = std::panic::catch_unwind(f) {
        l(&format!("panic: {}", e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()));
    }
    LOG.with(|v| std::mem::take(&mut *v.borrow_mut()))
}
fn case(key: &str, n: &mut usize, a: fn(), b: fn(), c: fn(), d: fn()) {
    for (x, y) in [(a, b), (c, d)] {
        let (x, y) = (take(x), take(y));
        *n += x.len() + 1;
        if x != y { println!("BAD\\t{key}\\twith automock: {y:?}; without: {x:?}"); }
    }
}
'''
