"""C18, visibility: who may use which part of a mock.

Every host form x visibility x position in a module tree x use; the uses that
compile must be those which compile with a hand written equivalent of the mock.
"""
import re
from rustc import *

VIS = ['', 'pub ', 'pub(crate) ', 'pub(super) ', 'pub(self) ', 'pub(in crate::a) ', 'pub(in super::super) ']
# the hand written equivalent of the expectations and contexts
REF = ("pub struct E; impl E { pub fn times(&mut self, _: usize) -> &mut E { self } pub fn return_const(&mut self, _: u32) -> &mut E { self } "
       "pub fn returning<F>(&mut self, _: F) -> &mut E { self } pub fn in_sequence(&mut self, _: &mut mockall::Sequence) -> &mut E { self } } "
       "pub struct Ctx(E); impl Ctx { pub fn expect(&mut self) -> &mut E { &mut self.0 } pub fn checkpoint(&self) {} } ")
EXP = 'let mut q = {e}; q.times(1).return_const(5u32);'
EXP2 = '{e}.returning(|| 5u32).in_sequence(&mut mockall::Sequence::new());'
def hosts():
    """-> (name, with the macros, by hand, {use: code})"""
    ref_s = lambda n, v, g='': ('impl%s Mock%s%s { %sfn f(&self) -> u32 { 0 } %sfn s() -> u32 { 0 } %sfn expect_f(&mut self) -> &mut E { panic!() } %sfn s_context() -> Ctx { panic!() } '
                         'pub fn new() -> Self { panic!() } pub fn checkpoint(&mut self) {} } ' % ('<G>' if g else '', n, g, v, v, v, v))
    def uses(n, make):
        return dict(name='let _: P::%s;' % n, new='P::%s::new();' % n, checkpoint='P::%s.checkpoint();' % make, call='P::%s.f();' % make, scall='P::%s::s();' % n,
                    expect=EXP.format(e='P::%s.expect_f()' % make).replace('let mut q', 'let mut m = P::%s; let q' % make).replace('P::%s.expect' % make, 'm.expect'),
                    expect2=EXP2.format(e='P::%s.expect_f()' % make), ctx='P::%s::s_context().checkpoint();' % n,
                    sexpect='let mut c = P::%s::s_context(); ' % n + EXP.format(e='c.expect()'))
    for v in VIS:
        for t, g, b in (('trait', '', ''), ('generic trait', '<G>', "<G: 'static>")):
            n = 'MockT' + ('::<u8>' if g else '')
            mk = 'pub fn make() -> MockT%s { MockT::new() }' % ('<u8>' if g else '')
            tr = 'T' + g
            yield ('automock %s%s' % (v, t), '#[automock] %strait T%s { fn f(&self) -> u32; fn s() -> u32; } %s' % (v, b, mk),
                   '%sstruct MockT%s; %s %strait %s { fn f(&self) -> u32; fn s() -> u32; } impl%s T%s for MockT%s { fn f(&self) -> u32 { 0 } fn s() -> u32 { 0 } } %s'
                   % (v, '<G>(std::marker::PhantomData<G>)' if g else '', re.sub(r'(pub(\([^)]*\))? )?fn [fs]\([^}]*\} ', '', ref_s('T', v, g)), v, tr, '<G>' if g else '', g, g, mk),
                   {k: (x if k not in ('call', 'scall') else '{ use P::T as _; %s }' % x) for k, x in uses(n, 'make()').items()})
        yield ('automock impl %sfn' % v, 'pub struct S; #[automock] impl S { %sfn f(&self) -> u32 {0} %sfn s() -> u32 {0} } ' % (v, v),
               'pub struct MockS; ' + ref_s('S', v), uses('MockS', 'MockS::new()'))
        yield ('automock generic impl %sfn' % v, "pub struct S<G>(G); #[automock] impl<G: 'static> S<G> { %sfn f(&self) -> u32 {0} %sfn s() -> u32 {0} } " % (v, v),
               'pub struct MockS<G>(G); ' + ref_s('S', v, '<G>'), uses('MockS::<u8>', 'MockS::<u8>::new()'))
        mk = 'pub fn make() -> MockS { MockS::new() }'
        yield ('mock! %sstruct' % v, 'mock! { %sS { pub fn f(&self) -> u32; pub fn s() -> u32; } } ' % v + mk,
               '%sstruct MockS; ' % v + ref_s('S', 'pub ') + mk, uses('MockS', 'make()'))
        yield ('mock! pub struct %sfn' % v, 'mock! { pub S { %sfn f(&self) -> u32; %sfn s() -> u32; } } ' % (v, v),
               'pub struct MockS; ' + ref_s('S', v), uses('MockS', 'MockS::new()'))
        yield ('mock! pub generic struct %sfn' % v, "mock! { pub S<G: 'static> { %sfn f(&self) -> u32; %sfn s() -> u32; } } " % (v, v),
               'pub struct MockS<G>(G); ' + ref_s('S', v, '<G>'), uses('MockS::<u8>', 'MockS::<u8>::new()'))
        # the methods of traits are as visible as the struct
        tr = 'pub trait T { fn f(&self) -> u32; fn s() -> u32; } '
        yield ('mock! %sstruct impl Trait' % v, tr + 'mock! { %sS {} impl T for S { fn f(&self) -> u32; fn s() -> u32; } } ' % v + mk,
               tr + '%sstruct MockS; %s impl T for MockS { fn f(&self) -> u32 { 0 } fn s() -> u32 { 0 } } ' % (v, re.sub(r'(pub(\([^)]*\))? )?fn [fs]\([^}]*\} ', '', ref_s('S', v))) + mk,
               {k: (x if k not in ('call', 'scall') else '{ use P::T as _; %s }' % x) for k, x in uses('MockS', 'make()').items()})
        def muses(call):
            return dict(call=call, ctx='P::mock_m::f_context().checkpoint();', checkpoint='P::mock_m::checkpoint();',
                        expect='let mut c = P::mock_m::f_context(); ' + EXP.format(e='c.expect()'))
        yield ('automock %smod' % v, '#[automock] %smod m { pub fn f() -> u32 {0} }' % v,
               '%smod mock_m { use super::*; pub fn f() -> u32 {0} pub fn f_context() -> Ctx { panic!() } pub fn checkpoint() {} }' % v, muses('P::mock_m::f();'))
        yield ('automock pub mod %sfn' % v, '#[automock] pub mod m { %sfn f() -> u32 {0} pub fn g() {} }' % v,
               'pub mod mock_m { use super::*; %sfn f() -> u32 {0} %sfn f_context() -> Ctx { panic!() } pub fn checkpoint() {} }' % (v, v), muses('P::mock_m::f();'))
        yield ('automock pub mod extern %sfn' % v, '#[automock] pub mod m { extern "C" { %sfn f() -> u32; pub fn g(); } }' % v,
               'pub mod mock_m { use super::*; %sunsafe fn f() -> u32 {0} %sfn f_context() -> Ctx { panic!() } pub fn checkpoint() {} }' % (v, v), muses('unsafe { P::mock_m::f(); }'))

POSITIONS = [('where it is defined', 'self::'), ('in a child', 'super::'), ('in the parent', 'b::'), ('in a sibling', 'super::b::'), ('at the root', 'a::b::'), ('elsewhere', 'super::a::b::')]

def source(path, h, mock):
    name, m, r, uses = h
    src = Source(path)
    src.text('#![allow(warnings)]\nfn main() {}')
    def fns(k):
        pos, p = POSITIONS[k]
        for u, t in uses.items(): src.case('%s | %s | %s' % (name, u, pos), 'pub fn u_%s() { %s }' % (u, t.replace('P::', p)))
    src.text('pub mod a { pub mod b { use mockall::*;'); src.case(name, m if mock else REF + r)
    fns(0); src.text('pub mod c {'); fns(1); src.text('} }')
    fns(2); src.text('pub mod d {'); fns(3); src.text('} }')
    fns(4); src.text('pub mod e {'); fns(5); src.text('}')
    src.write()
    return src

def visibility(res, rc, work, lock, only=None):
    hs = list(hosts())
    def one(k):
        h = hs[k]
        got = []
        for mock in (True, False):
            src = source(os.path.join(work, 'vis%d%d.rs' % (k, mock)), h, mock)
            r, ds, err = rc.compile(src.path, os.path.join(work, 'vis%d.rmeta' % k), check_only=True, cwd=work)
            es = src.errors(ds)
            if (r != 0) != bool(es): raise CheckError('%s: %s' % (src.path, err[-500:]))
            got.append((es, [x[2] for x in src.ranges if ' | ' in x[2]]))
        (got, keys), (want, _) = got
        foreign = [x for x in want if x not in keys or 'private' not in want[x].split(' :: ')[0]]
        if foreign: raise CheckError('the reference for %s does not compile: %s' % (h[0], want[foreign[0]]))
        for x in got:
            if x not in keys or (x not in want):
                with lock: res.violation('vis', '%s: does not compile: %s' % (x, got[x].split(' :: ')[0]), item=h[0], error=got[x])
        if all(x in keys for x in got):
            for x in want:
                if x not in got:
                    with lock: res.violation('vis', '%s: should be private' % x, item=h[0])
        with lock: res.states += len(keys); res.traces += len(keys); res.transitions += 2 * len(keys)
    parallel(one, [k for k in range(len(hs)) if only is None or hs[k][0] in only])
    return len(hs)
