"""C24: programs whose names could collide with names of the generated code.

A case is one role of a name, one kind of program and one or more names; a case that fails is split
into cases of one name each.
"""
import re

class Case:
    def __init__(s, role, kind, names): s.role, s.kind, s.names = role, kind, list(names)
    @property
    def key(s): return "%s | %s | %s" % (" ".join(s.names), s.role, s.kind)
    def split(s): return [Case(s.role, s.kind, [n]) for n in s.names]

KW = set("as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return self static struct super trait true type unsafe use where while async await dyn abstract become box do final macro override priv typeof unsized virtual yield try gen Self _ union".split())

# --- names of arguments

class AK:
    """kind of method whose arguments are named"""
    def __init__(s, sig, ty='String', ex='STR', dec='hs({n})', ret='String', mk='cat(&[{decs}])', setter='returning', rdec='hs(&r)', host='trait', gen='', tf='', etf=None, attr='', want=None, dbg=True, after=''):
        s.sig, s.ty, s.ex, s.dec, s.ret, s.mk, s.setter, s.rdec, s.host, s.gen, s.tf, s.attr, s.want, s.dbg = sig, ty, ex, dec, ret, mk, setter, rdec, host, gen, tf, attr, want, dbg
        s.etf = tf if etf is None else etf
CONST = dict(mk='"rr".to_string()', setter='return_const', want='rr')
ARGKINDS = {
    'value':    AK('&self'),
    'ref':      AK('&self', ret='&String', **CONST),
    'mut':      AK('&mut self', ret='&mut String'),
    'generic':  AK('&self', gen="<T: std::fmt::Debug + 'static>", ty='T', tf='::<String>'),
    'gref':     AK('&self', gen="<T: std::fmt::Debug + 'static>", ty='T', tf='::<String>', ret='&String', **CONST),
    'gmut':     AK('&mut self', gen="<T: std::fmt::Debug + 'static>", ty='T', tf='::<String>', ret='&mut String'),
    'static':   AK(''),
    'gstatic':  AK('', gen="<T: std::fmt::Debug + 'static>", ty='T', tf='::<String>'),
    'str':      AK('&self', ty='&str', ex='&STR[..]'),
    'strret':   AK('&self', ret='&str', mk='"rr".to_string()', setter='return_const', want='rr'),
    'sstr':     AK('&self', ret="&'static str", mk='"rr"', setter='return_const', want='rr'),
    'mutr':     AK('&self', ty='&mut String', ex='&mut STR'),
    'lt':       AK('&self', gen="<'zl>", ty="&'zl str", ex='&STR[..]'),
    'dyn':      AK('&self', ty='&dyn Hs', ex='&STR', dec='{n}.hs()', dbg=False),
    'conc':     AK('&self', gen="<P: AsRef<str>>", ty='P', dec='{n}.as_ref().to_string()', attr='#[mockall::concretize]', dbg=False),
    'closure':  AK('&self', gen="<F: Fn() -> String + Send + 'static>", ty='F', ex='|| STR', dec='{n}()', dbg=False, etf=''),
    'impl':     AK('&self', ret='impl std::future::Future<Output = String>', mk='{{ let zz = cat(&[{decs}]); Box::pin(async move {{ zz }}) }}', rdec='block(r)'),
    'dynret':   AK('&self', ret='&dyn Hs', mk='Box::new("rr".to_string())', setter='return_const', want='rr', rdec='r.hs()'),
    'inherent': AK('&self', host='mock!'),
    'imut':     AK('&mut self', host='mock!', ret='&mut String'),
    'istatic':  AK('', host='mock!'),
    'module':   AK('', host='mod'),
    'foreign':  AK('', host='extern', ty='u32', ex='NUM', ret='u32', dec='({n} % 100).to_string()', mk='[{decs}].concat().len() as u32 + 1000', rdec='r.to_string()', want='LEN'),
}

def sarg(kind, i):
    return kind.ex.replace('STR', 'String::from("s%d")' % i).replace('NUM', '%du32' % (100 + i))

def argcase(c, n):
    k = ARGKINDS[c.kind]
    N = len(c.names)
    one = k.gen.startswith('<F')
    names = c.names
    args = ', '.join('%s: %s' % (x, k.ty) for x in names)
    sig = 'fn zf%s(%s)%s' % (k.gen, ', '.join(x for x in (k.sig, args) if x), ' -> ' + k.ret)
    if k.host == 'trait':
        host = '#[::mockall::automock] pub trait ZTrait { %s %s; }' % (k.attr, sig)
        mock, target, nm = 'MockZTrait', '<MockZTrait as ZTrait>::', 'ZTrait'
    elif k.host == 'mock!':
        host = '::mockall::mock!{ pub ZS { %s pub %s; } }' % (k.attr, sig)
        mock, target, nm = 'MockZS', 'MockZS::', 'MockZS'
    elif k.host == 'mod':
        host = '#[::mockall::automock] pub mod zm { pub %s { unimplemented!() } }' % sig
        mock, target, nm = 'mock_zm', 'mock_zm::', 'mock_zm'
    else:
        host = '#[::mockall::automock] pub mod zm { extern "C" { pub %s; } }' % sig
        mock, target, nm = 'mock_zm', 'mock_zm::', 'mock_zm'
    params = ', '.join('a%d' % i for i in range(N))
    if c.kind == 'foreign':
        mparams, dec, mdec, val = params, (lambda i: '(a%d %% 100).to_string()' % i), (lambda i: '(*a%d %% 100).to_string()' % i), (lambda i: str(i))
    else:
        mparams = params
        def dec(i):
            return k.dec.replace('hs({n})', 'hs(&a%d)' % i).format(n='a%d' % i)
        mdec, val = dec, (lambda i: 's%d' % i)
    cond = ' && '.join('%s == "%s"' % (mdec(i), val(i)) for i in range(N))
    ret = k.mk.format(decs=', '.join('%s%s' % ('' if c.kind == 'foreign' else '&', dec(i)) for i in range(N)))
    setter = '%s(%s)' % (k.setter, ret) if k.setter == 'return_const' else '%s(|%s| %s)' % (k.setter, params, ret)
    want = ''.join(val(i) for i in range(N))
    if k.want == 'LEN': want = str(1000 + len(want))
    elif k.want: want = k.want
    call = '%szf%s(%s)' % (target, k.tf if not k.gen.startswith(('<F', '<P')) else '', ', '.join((['&mut m'] if k.sig == '&mut self' else ['&m'] if k.sig else []) + [sarg(k, i) for i in range(N)]))
    if k.host == 'extern': call = 'unsafe { %s }' % call
    if k.sig: new, exp = 'let mut m = %s::new();' % mock, 'm.expect_zf%s()' % k.etf
    else: new, exp = 'let m = %s::zf_context();' % mock, 'm.expect%s()' % k.etf
    shown = ['"%s' % 'zf('] + [str(100 + i) if c.kind == 'foreign' else '\\"s%d\\"' % i if k.dbg else '?' for i in range(N)]
    shown = ', '.join('"%s"' % s.lstrip('"') for s in shown)
    t = '''pub fn zz_t() {
  hyg_silent("a call", || { %(new)s %(exp)s.withf(|%(mparams)s| %(cond)s).times(1).%(setter)s;
    { let mut r = %(call)s; let got: String = %(rdec)s; hyg_ck(got == "%(want)s", &::std::format!("returned {got:?}")); }
    hyg_panics("one call too many", &["zf", "1"], || { let _ = %(call)s; });
    let _ = ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(|| ::std::mem::drop(m))); });
  hyg_silent("no match", || { %(new)s %(exp)s.withf(|%(mparams)s| false).times(0).%(setter)s;
    hyg_panics("a call without match", &[%(shown)s], || { let _ = %(call)s; }); });
}''' % dict(new=new, exp=exp, mparams=mparams, cond=cond, setter=setter, call=call, rdec=k.rdec, want=want, shown=shown)
    r = host + '\n' + t
    # the symbols of foreign functions must differ
    return re.sub(r'\bzf(?=\(|_context)', 'zf%d' % n, r) if k.host == 'extern' else r

# --- names of methods and functions

METHODKINDS = {
    'value': '&self, zx: u32) -> u32', 'ref': '&self, zx: u32) -> &u32', 'mut': '&mut self, zx: u32) -> &mut u32', 'generic': '&self, zx: ZT) -> u32',
    'static': 'zx: u32) -> u32', 'gstatic': 'zx: ZT) -> u32', 'gref': '&self, zx: ZT) -> &u32', 'gmut': '&mut self, zx: ZT) -> &mut u32', 
    'inherent': '&self, zx: u32) -> u32', 'istatic': 'zx: u32) -> u32', 'ig': '&self, zx: ZT) -> u32', 'impl': '&self, zx: u32) -> u32', 'module': 'zx: u32) -> u32', 'gmodule': 'zx: ZT) -> u32',
    'gtrait': '&self, zx: ZH) -> u32', 'gtstatic': 'zx: ZH) -> u32',
}
def methodcase(c, n):
    kind, sig = c.kind, METHODKINDS[c.kind]
    g = '<ZT: \'static>' if 'ZT' in sig else ''
    static = not sig.startswith('&')
    ms = ['%sfn %s%s(%s' % ('pub ' if kind in ('inherent', 'istatic', 'ig', 'module', 'gmodule') else '', x, g, sig) for x in c.names]
    if kind in ('inherent', 'istatic', 'ig'):
        host, mock, target = '::mockall::mock!{ pub ZS { %s } }' % ' '.join(m + ';' for m in ms), 'MockZS', 'MockZS::'
    elif kind == 'impl':
        host, mock, target = 'pub trait ZTrait { %s } ::mockall::mock!{ pub ZS { fn zzz(&self); } impl ZTrait for ZS { %s } }' % (' '.join(m + ';' for m in ms), ' '.join(m + ';' for m in ms)), 'MockZS', '<MockZS as ZTrait>::'
    elif kind in ('module', 'gmodule'):
        host, mock, target = '#[::mockall::automock] pub mod zm { %s }' % ' '.join(m + ' { unimplemented!() }' for m in ms), 'mock_zm', 'mock_zm::'
    elif 'ZH' in sig:
        host, mock, target = "#[::mockall::automock] pub trait ZTrait<ZH: 'static> { %s }" % ' '.join(m + ';' for m in ms), 'MockZTrait::<u32>', '<MockZTrait<u32> as ZTrait<u32>>::'
    else:
        host, mock, target = '#[::mockall::automock] pub trait ZTrait { %s }' % ' '.join(m + ';' for m in ms), 'MockZTrait', '<MockZTrait as ZTrait>::'
    o = []
    tf = '::<u32>' if g else ''
    rf = '*' if '-> &' in sig else ''
    setter = 'return_const(9u32)' if '-> &u32' in sig else 'returning(|a| %s)' % ('9')
    for x in c.names:
        bare = x.replace('r#', '')
        if static: new, exp = 'let m = %s::%s_context();' % (mock, bare), 'm.expect%s()' % tf
        else: new, exp = 'let mut m = %s::new();' % mock, 'm.expect_%s%s()' % (bare, tf)
        a0 = [] if static else ['&mut m' if '&mut self' in sig else '&m']
        call = lambda v: '%s%s%s(%s)' % (target, x, tf, ', '.join(a0 + [str(v)]))
        o.append('''  hyg_silent("%s", || { %s %s.withf(|a| *a == 7).times(1).%s;
    { let r = %s%s; hyg_ck(r == 9, "return value"); } hyg_panics("another argument", &["%s("], || { let _ = %s; }); });
  hyg_panics("a missing call", &["%s", "1"], || { %s %s.withf(|a| *a == 7).times(1).%s; ::std::mem::drop(m); });''' % (x, new, exp, setter, rf, call(7), bare, call(8), bare, new, exp, setter))
    return host + '\npub fn zz_t() {\n%s\n}' % '\n'.join(o)

# --- names of types

def typecase(c, n):
    N, k = c.names[0], c.kind
    if c.role == 'type parameter':
        b = "std::fmt::Debug + Clone + 'static"
        host, mock, ex, call, static, etf = {
            'method':  ('#[::mockall::automock] pub trait ZTrait { fn zf<%s: %s>(&self, zx: %s) -> %s; }' % (N, b, N, N), 'MockZTrait', '', 'ZTrait::zf(&m, %s)', 0, '::<u32>'),
            'method2': ('#[::mockall::automock] pub trait ZTrait { fn zf<%s: %s, ZU: \'static>(&self, zx: %s, zy: Option<ZU>) -> %s; }' % (N, b, N, N), 'MockZTrait', '', 'ZTrait::zf::<u32, u8>(&m, %s, None)', 0, '::<u32, u8>'),
            'mref':    ('#[::mockall::automock] pub trait ZTrait { fn zf<%s: %s>(&self, zx: %s) -> &u32; }' % (N, b, N), 'MockZTrait', '', 'ZTrait::zf(&m, %s)', 0, '::<u32>'),
            'mmut':    ('#[::mockall::automock] pub trait ZTrait { fn zf<%s: %s>(&mut self, zx: %s) -> &mut u32; }' % (N, b, N), 'MockZTrait', '', 'ZTrait::zf(&mut m, %s)', 0, '::<u32>'),
            'static':  ('#[::mockall::automock] pub trait ZTrait { fn zf<%s: %s>(zx: %s) -> %s; }' % (N, b, N, N), 'MockZTrait', '', '<MockZTrait as ZTrait>::zf(%s)', 1, '::<u32>'),
            'trait':   ('#[::mockall::automock] pub trait ZTrait<%s: %s> { fn zf(&self, zx: %s) -> %s; }' % (N, b, N, N), 'MockZTrait::<u32>', '', 'ZTrait::zf(&m, %s)', 0, ''),
            'tstatic': ('#[::mockall::automock] pub trait ZTrait<%s: %s> { fn zf(zx: %s) -> %s; }' % (N, b, N, N), 'MockZTrait::<u32>', '', '<MockZTrait<u32> as ZTrait<u32>>::zf(%s)', 1, '::<u32>' * 0),
            'tref':    ('#[::mockall::automock] pub trait ZTrait<%s: %s> { fn zf(&self, zx: %s) -> &u32; fn zg<ZG: \'static>(&self, zx: ZG, zy: %s); fn zh(&mut self) -> &mut %s; }' % (N, b, N, N, N), 'MockZTrait::<u32>', '', 'ZTrait::zf(&m, %s)', 0, ''),
            'where':   ('#[::mockall::automock] pub trait ZTrait<%s> where %s: %s { fn zf(&self, zx: %s) -> %s; }' % (N, N, b, N, N), 'MockZTrait::<u32>', '', 'ZTrait::zf(&m, %s)', 0, ''),
            'struct':  ('pub trait ZQ<%s> { fn zq(&self, zx: %s) -> %s; } ::mockall::mock!{ pub ZS<%s: %s> { pub fn zf(&self, zx: %s) -> %s; pub fn zs(zx: %s); } impl<%s: %s> ZQ<%s> for ZS<%s> { fn zq(&self, zx: %s) -> %s; } impl<%s: %s> Clone for ZS<%s> { fn clone(&self) -> Self; } }' % (N, N, N, N, b, N, N, N, N, b, N, N, N, N, N, b, N), 'MockZS::<u32>', '', 'm.zf(%s)', 0, ''),
            'module':  ('#[::mockall::automock] pub mod zm { pub fn zf<%s: %s>(zx: %s) -> %s { unimplemented!() } }' % (N, b, N, N), 'mock_zm', '', 'mock_zm::zf(%s)', 1, '::<u32>'),
            'conc':    ('#[::mockall::automock] pub trait ZTrait { #[::mockall::concretize] fn zf<%s: ::hygp::Num>(&self, zx: %s) -> u32; }' % (N, N), 'MockZTrait', '', 'ZTrait::zf(&m, %s)', 0, ''),
        }[k]
        rf = '*' if '-> &u32' in host or '-> &mut u32' in host else ''
        if 'zg<' in host: rf = '*'
        val = 'zx.num() == 7' if k == 'conc' else '*zx == 7'
        pat = 'zx, _' if k == 'method2' else 'zx'
    else:
        val, pat, rf, etf, static = '*zx == 7', 'zx', '', '', 0
        gm = "fn zg<ZG: 'static>(&self, zx: ZG) -> &u32; fn zs(zx: u32) -> u32; fn zm(&mut self) -> &mut u32; fn zi(&self) -> impl ::std::fmt::Debug;"
        host, mock, call = {
            'trait':   ('#[::mockall::automock] pub trait %s { fn zf(&self, zx: u32) -> u32; %s }' % (N, gm), 'Mock%s' % N, '<Mock%s as %s>::zf(&m, %%s)' % (N, N)),
            'gtrait':  ("#[::mockall::automock] pub trait %s<ZH: 'static> { fn zf(&self, zx: ZH) -> u32; %s }" % (N, gm), 'Mock%s::<u32>' % N, '<Mock%s<u32> as %s<u32>>::zf(&m, %%s)' % (N, N)),
            'itrait':  ('pub trait %s { fn zf(&self, zx: u32) -> u32; %s } ::mockall::mock!{ pub ZS { fn zzz(&self); } impl %s for ZS { fn zf(&self, zx: u32) -> u32; %s } }' % (N, gm, N, gm), 'MockZS', '<MockZS as %s>::zf(&m, %%s)' % N),
            'struct':  ('pub struct %s; #[::mockall::automock] impl %s { pub fn zf(&self, zx: u32) -> u32 { 0 } pub fn new() -> Self { %s } pub fn zs(zx: u32) -> u32 { 0 } pub fn zo() -> %s { loop {} } }' % (N, N, N, N), 'Mock%s' % N, 'm.zf(%s)'),
            'mock!':   ("::mockall::mock!{ pub %s { pub fn zf(&self, zx: u32) -> u32; pub fn zg<ZG: 'static>(&self, zx: ZG) -> &u32; pub fn zs(zx: u32) -> u32; } impl Clone for %s { fn clone(&self) -> Self; } }" % (N, N), 'Mock%s' % N, 'm.zf(%s)'),
            'gmock!':  ("::mockall::mock!{ pub %s<ZH: 'static> { pub fn zf(&self, zx: ZH) -> u32; pub fn zg<ZG: 'static>(&self, zx: ZG) -> &u32; pub fn zs(zx: u32) -> u32; } impl<ZH: 'static> Clone for %s<ZH> { fn clone(&self) -> Self; } }" % (N, N), 'Mock%s::<u32>' % N, 'm.zf(%s)'),
            'assoc':   ('#[::mockall::automock(type %s = u32;)] pub trait ZTrait { type %s; fn zf(&self, zx: Self::%s) -> Self::%s; fn zs(zx: Self::%s) -> u32; fn zg<ZG: \'static>(&self, zx: ZG) -> &Self::%s; }' % (N, N, N, N, N, N), 'MockZTrait', 'ZTrait::zf(&m, %s)'),
            'iassoc':  ('pub trait ZTrait { type %s; fn zf(&self, zx: Self::%s) -> Self::%s; } ::mockall::mock!{ pub ZS {} impl ZTrait for ZS { type %s = u32; fn zf(&self, zx: u32) -> u32; } }' % (N, N, N, N), 'MockZS', 'ZTrait::zf(&m, %s)'),
            'aconst':  ('pub trait ZTrait { const %s: u32; fn zf(&self, zx: u32) -> u32; } ::mockall::mock!{ pub ZS {} impl ZTrait for ZS { const %s: u32 = 3; fn zf(&self, zx: u32) -> u32; } }' % (N, N), 'MockZS', 'ZTrait::zf(&m, %s)'),
            'sigtype': ("pub struct %s<ZX>(pub ZX); #[::mockall::automock] pub trait ZTrait { fn zf(&self, zx: %s<u32>) -> u32; fn zr(&self, zx: &%s<u8>) -> &%s<u8>; fn zm(&mut self) -> &mut %s<u8>; fn zg<ZG: 'static>(&self, zx: %s<ZG>) -> %s<ZG>; fn zs(zx: &%s<u8>, zy: Vec<%s<u32>>); fn zgs<ZG: 'static>(zx: &mut %s<ZG>); }" % ((N,) * 10), 'MockZTrait', 'ZTrait::zf(&m, %s(%%s))' % N),
            'sigenum': ("pub enum %s { Za(u32) } #[::mockall::automock] pub mod zm { use super::*; pub fn zf(zx: %s) -> u32 { 0 } pub fn zg<ZG: 'static>(zx: &%s, zy: ZG) -> Vec<%s> { vec![] } }" % ((N,) * 4), 'mock_zm', 'mock_zm::zf(%s::Za(%%s))' % N),
            'bound':   ("pub trait %s {} impl %s for u32 {} #[::mockall::automock] pub trait ZTrait { fn zf<ZB: %s + ::std::cmp::PartialEq<u32> + 'static>(&self, zx: ZB) -> u32; fn zr(&self, zx: &dyn %s) -> u32; fn zo(&self) -> ::std::boxed::Box<dyn %s>; fn zs<ZB: %s + 'static>(zx: ZB); }" % ((N,) * 6), 'MockZTrait', 'ZTrait::zf(&m, %s)'),
            'sigmod':  ("pub mod %s { pub struct Zt(pub u32); } #[::mockall::automock] pub trait ZTrait { fn zf(&self, zx: %s::Zt) -> u32; fn zr(&self, zx: &%s::Zt) -> &%s::Zt; fn zm(&mut self) -> &mut %s::Zt; fn zs<ZG: 'static>(zx: ZG) -> %s::Zt; }" % ((N,) * 6), 'MockZTrait', 'ZTrait::zf(&m, %s::Zt(%%s))' % N),
            'module':  ('#[::mockall::automock] pub mod %s { pub fn zf(zx: u32) -> u32 { unimplemented!() } pub fn zg<ZG: \'static>(zx: ZG) -> u32 { unimplemented!() } }' % N, 'mock_%s' % N.replace('r#', ''), 'mock_%s::zf(%%s)' % N.replace('r#', '')),
            'foreign': ('#[::mockall::automock(mod zmock;)] extern "C" { pub fn zf(zx: u32) -> u32; }', '', ''),
            'lifetime': ("#[::mockall::automock] pub trait ZTrait { fn zf<'%s>(&self, zx: &'%s u32) -> u32; fn zh<'%s>(&self, zx: &'%s str) -> u32; }" % ((N,) * 4), 'MockZTrait', 'ZTrait::zf(&m, &%s)'),
            'tlifetime': ("pub struct ZL<'%s>(&'%s u32); #[::mockall::automock] impl<'%s> ZL<'%s> { pub fn zf(&self, zx: u32) -> u32 { 0 } }" % ((N,) * 4), 'MockZL', 'm.zf(%s)'),
        }[k]
        static = k in ('module', 'sigenum')
        if k in ('sigtype', 'sigmod'): val = 'zx.0 == 7'
        if k == 'sigenum': val = 'match zx { %s::Za(q) => *q == 7 }' % N
        if k == 'bound': etf = '::<u32>'
    if static: new, exp = 'let m = %s::zf_context();' % mock, 'm.expect%s()' % etf
    else: new, exp = 'let mut m = <%s>::%s();' % (mock.replace('::<', '<'), 'default' if k == 'struct' and c.role != 'type parameter' else 'new'), 'm.expect_zf%s()' % etf
    setter = ('return_const(9u32)' if '-> &u32' in host and rf else 'returning(|%s| 9)' % pat)
    t = '''pub fn zz_t() { %(use)s
  hyg_silent("a call", || { %(new)s %(exp)s.withf(|%(pat)s| %(val)s).times(1).%(setter)s;
    { let r = %(rf)s%(call7)s; hyg_ck(r == 9, "return value"); } hyg_panics("another argument", &["zf("], || { let _ = %(call8)s; }); });
  hyg_panics("a missing call", &["zf", "1"], || { %(new)s %(exp)s.withf(|%(pat)s| %(val)s).times(1).%(setter)s; ::std::mem::drop(m); });
}''' % dict(new=new, exp=exp, pat=pat, val=val, setter=setter, rf=rf, call7=call % '7u32', call8=call % '8u32', use='use ::hygp::Num;' if k == 'conc' else '')
    return host + '\n' + t

# --- items in scope

SCOPE = '''
#[::mockall::automock] pub trait ZTrait { fn zf(&self, zx: u32, zy: &str) -> u32; fn zr(&self) -> &u32; fn zm(&mut self) -> &mut u32; fn zg<ZG: 'static>(&self, zx: ZG) -> u32; fn zs(zx: u32) -> u32; fn zgs<ZG: 'static>(zx: ZG) -> &'static u32; #[::mockall::concretize] fn zc<ZP: ::std::convert::AsRef<str>>(&self, zx: ZP); }
#[::mockall::automock] pub trait ZGen<ZH: 'static> { fn zf(&self, zx: ZH) -> u32; fn zs(zx: ZH) -> u32; }
pub trait ZQ { fn zq(&self) -> u32; }
::mockall::mock!{ #[derive(Debug)] pub ZS { pub fn zf(&self, zx: u32) -> u32; } impl ZQ for ZS { fn zq(&self) -> u32; } impl ::std::clone::Clone for ZS { fn clone(&self) -> Self; } }
#[::mockall::automock] pub mod zm { pub fn zf(zx: u32) -> u32 { 0 } pub fn zg<ZG: 'static>(zx: ZG) -> u32 { 0 } extern "C" { pub fn ze_@@(zx: u32); } }
pub fn zz_t() {
  hyg_silent("calls", || { let mut m = MockZTrait::new(); m.expect_zf().with(::mockall::predicate::eq(7), ::mockall::predicate::eq("q")).times(1).returning(|_, _| 9); hyg_ck(m.zf(7, "q") == 9, "zf");
    hyg_panics("another argument", &["zf(8, \\"q\\")"], || { m.zf(8, "q"); });
    let mut sq = ::mockall::Sequence::new();
    m.expect_zr().times(1).in_sequence(&mut sq).return_const(5u32); m.expect_zm().times(1).in_sequence(&mut sq).return_var(6u32); m.expect_zg::<u8>().return_const(7u32);
    hyg_ck(*m.zr() == 5 && *m.zm() == 6 && m.zg(1u8) == 7, "zr, zm, zg");
    let c = MockZTrait::zs_context(); c.expect().times(1).return_const(8u32); hyg_ck(MockZTrait::zs(0) == 8, "zs");
    let c = MockZTrait::zgs_context(); c.expect::<u8>().times(1).return_const(&8u32); hyg_ck(*MockZTrait::zgs(0u8) == 8, "zgs");
    let mut m = MockZGen::<u32>::new(); m.expect_zf().times(1).returning(|x| x + 1); hyg_ck(m.zf(1) == 2, "zf of ZGen");
    let c = mock_zm::zf_context(); c.expect().times(1).return_const(8u32); hyg_ck(mock_zm::zf(0) == 8, "zf of zm"); });
  hyg_panics("a missing call", &["MockZS::zf", "1"], || { let mut m = MockZS::new(); m.expect_zf().times(1).return_const(9u32); ::std::mem::drop(m); });
  hyg_panics("a missing call", &["zq", "1"], || { let mut m = MockZS::new(); m.expect_zq().times(1).return_const(9u32); ::std::mem::drop(m); });
}
'''
SCOPEKINDS = {
    'struct': lambda n: '#[derive(Debug, Clone, Copy)] pub struct %s;' % n,
    'enum': lambda n: 'pub enum %s {}' % n,
    'trait': lambda n: 'pub trait %s {}' % n,
    'alias': lambda n: 'pub type %s<T> = ::std::vec::Vec<T>;' % n,
    'const': lambda n: 'pub const %s: u8 = 1;' % n,
    'fn': lambda n: 'pub fn %s() {}' % n,
    'mod': lambda n: 'pub mod %s {}' % n,
    'macro': lambda n: 'macro_rules! %s { (zzq) => {} } pub(crate) use %s;' % (n, n),
}
def scopecase(c, n):
    return '\n'.join(SCOPEKINDS[c.kind](x) for x in c.names) + SCOPE.replace('ze_@@', 'ze%d' % n)

def render(c, n):
    f = {'argument': argcase, 'method': methodcase, 'type parameter': typecase, 'type': typecase, 'type in a signature': typecase, 'scope': scopecase}[c.role]
    body = f(c, n)
    return 'pub mod c%d {\nuse ::hygp::*;\n%s\n}' % (n, body)

# --- which names, which programs

# Shadowing the prelude, or the built-in macros and attributes, is out of scope
PRELUDE = set("""Option Some None Ok Err Box Vec String ToString ToOwned Send Sync Sized Copy Clone Drop Fn FnMut FnOnce AsyncFn Iterator IntoIterator
    DoubleEndedIterator ExactSizeIterator Extend Into From TryFrom TryInto FromIterator AsRef AsMut Default Eq Ord PartialEq PartialOrd Debug Hash drop std core alloc mockall""".split())
BUILTIN = set("""inline must_use used allow doc expect automatically_derived macro_use path feature marker no_mangle prelude_import cfg warn deny forbid deprecated derive test bench repr cold
    ignore should_panic link no_std panic_handler proc_macro track_caller target_feature type_length_limit recursion_limit windows_subsystem crate_type crate_name non_exhaustive global_allocator
    panic assert assert_eq assert_ne debug_assert write writeln format format_args print println eprint eprintln vec unreachable unimplemented todo matches concat stringify include env line file column
    module_path compile_error try thread_local dbg cfg_attr link_name export_name no_link no_main global_asm""".split())
# ... as are the names that are part of mockall's interface
API = {'method': {'new'}, 'inherent method': {'new', 'default', 'checkpoint'}, 'function': {'checkpoint'}}
def reserved(x): return x.startswith(('__', 'Mockall', 'mockall')) or x in KW

def names(expanded, extra):
    """Every identifier that occurs in expansions, and some more -> lower case ones, upper case ones"""
    t = re.sub(r'"(\\.|[^"\\])*"', '""', re.sub(r'(?m)^\s*(//|#!?\[doc).*$', '', expanded))
    ids = set(re.findall(r"(?<![\w'])[A-Za-z_]\w*", t)) | set(extra)
    ids = {x for x in ids if not reserved(x) and not re.match(r'^_+\d*$', x) and not re.match(r'^[zZ]', x)}
    return sorted(x for x in ids if not x[0].isupper()), sorted(x for x in ids if x[0].isupper())

def plan(low, up, tier):
    cs = []
    def add(role, kinds, names, k):
        for kind in kinds:
            for i in range(0, len(names), k): cs.append(Case(role, kind, names[i:i + k]))
    th = tier != 'quick'
    add('argument', [k for k in ARGKINDS if k != 'closure'], low, 6 if th else 12)
    add('argument', ['closure'], low, 1) if th else None
    for k in METHODKINDS:
        if not th and k in ('ref', 'gstatic', 'gref', 'gmut', 'istatic', 'ig', 'impl', 'gmodule', 'gtstatic'): continue
        bad = API['inherent method' if k in ('inherent', 'istatic', 'ig') else 'function' if 'module' in k else 'method']
        # the field _t0 holds the type parameters
        add('method', [k], [x for x in low if x not in bad and not (k.startswith('gt') and re.match(r'_t\d', x))], 8)
    types = [x for x in up if x not in PRELUDE]
    # the macros decide by these names that a reference is to an unsized type
    unsized_ = ('Path', 'OsStr', 'CStr')
    types = [x for x in types if x not in unsized_]
    add('type parameter', ['method', 'mref', 'tstatic', 'tref', 'struct', 'module'] + (['method2', 'mmut', 'static', 'trait', 'where', 'conc'] if th else []), types, 1)
    add('type', ['itrait', 'gmock!', 'assoc'] + (['trait', 'gtrait', 'mock!', 'iassoc', 'aconst'] if th else []), types, 1)
    add('type in a signature', ['sigtype'] + (['struct', 'sigenum', 'bound'] if th else []), types, 1)
    mods = [x for x in low if x not in PRELUDE]
    add('type', ['lifetime', 'module'] + (['tlifetime'] if th else []), low, 1)
    add('type in a signature', ['sigmod'], mods, 1)
    k = 4 if th else 16
    add('scope', ['struct', 'enum', 'trait', 'alias', 'const'], types, k)
    add('scope', ['fn', 'mod'], mods, k)
    add('scope', ['macro'], [x for x in mods if x not in BUILTIN], k)
    # very common
    add('scope', ['alias'], ['Result'], 1)
    return cs
