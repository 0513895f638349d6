"""C18: a grammar of mockable signatures, and a driver for each of them.

A signature is a default one with at most `bound` features changed; all such
signatures are enumerated.  `case_code` emits the original, its mock, and a
function that expects, calls and verifies it through the original's interface.
"""
import itertools

class Arg:
    """An argument kind.  {i}: number, {v}: value to pass, {n}: name of the closure's parameter"""
    def __init__(s, ty, expr, dec='{n}.dec()', pre='', after=None, cmut=None, gen=(), lt=(), conc=False, pat='', need=(), dbg=True, inst=None, where=(), st=False):
        s.ty, s.expr, s.dec, s.pre, s.after, s.cmut = ty, expr, dec, pre, after, cmut
        s.gen, s.lt, s.conc, s.pat, s.need, s.inst, s.where, s.st = gen, lt, conc, pat, set(need), inst or {}, where, st

class Ret:
    """A return kind.  {v}: value; cls: static, ref, mut"""
    def __init__(s, ty, mk, dec='r.dec()', cls='static', clone=True, wrap='{c}', gen=(), lt=(), need=(), asyn=False, inst=None, st=False, selfty=False, send=True):
        s.send = send
        s.ty, s.mk, s.dec, s.cls, s.clone, s.wrap, s.gen, s.lt, s.need, s.asyn, s.inst, s.st, s.selfty = ty, mk, dec, cls, clone, wrap, gen, lt, set(need), asyn, inst or {}, st, selfty

T = ("T", "Dec + 'static")
TC = ("T", "Dec + Clone + 'static")
TS = {'T': 'String'}
N = 'let x{i} = {v} as u32;'
STR = 'let x{i} = STRS[{v}].to_string();'
ARGS = {
    'u32':     Arg('u32', '{v} as u32'),
    'mutpat':  Arg('u32', '{v} as u32', pat='mut '),
    'alias':   Arg('Alias', '{v} as u32'),
    'path_ty': Arg('deep::er::Ty', '{v} as u32'),
    'abs_ty':  Arg('::std::string::String', 'STRS[{v}].to_string()'),
    'bool':    Arg('bool', '{v} == 1'),
    'u32r':    Arg('&u32', '&x{i}', pre=N),
    'refref':  Arg("&'a &'a u32", '&&x{i}', pre=N, lt=['a']),
    'mutr':    Arg('&mut u32', '&mut x{i}', pre='let mut x{i} = {v} as u32;', after='x{i} as V', cmut='*{n} += 64;'),
    'str':     Arg('&str', '&x{i}', pre=STR),
    'string':  Arg('String', 'STRS[{v}].to_string()'),
    'stringr': Arg('&String', '&x{i}', pre=STR),
    'pathr':   Arg('&Path', 'Path::new(STRS[{v}])'),
    'slice':   Arg('&[u8]', '&x{i}', pre='let x{i} = vec![7u8, {v}];'),
    'mslice':  Arg('&mut [u8]', '&mut x{i}', pre='let mut x{i} = vec![7u8, {v}];', after='x{i}[1]', cmut='{n}[1] += 64;'),
    'slstr':   Arg("&[&'a str]", '&[STRS[7], STRS[{v}]]', lt=['a']),
    'slstrs':  Arg("&[&'static str]", '&[STRS[7], STRS[{v}]]'),
    'arr':     Arg('[u8; 2]', '[7u8, {v}]'),
    'arrr':    Arg('&[u8; 2]', '&[7u8, {v}]'),
    'vec':     Arg('Vec<u8>', 'vec![7u8, {v}]'),
    'tup':     Arg('(u32, u32)', '({v} as u32, {v} as u32 + 1)'),
    'tupref':  Arg("(&'a u32, u32)", '(&x{i}, x{i} + 1)', pre=N, lt=['a']),
    'unit':    Arg('()', '()', dec='({n}.dec() + {v})'),
    'opt':     Arg('Option<u32>', 'Some({v} as u32)'),
    'optr':    Arg("Option<&'a u32>", 'Some(&x{i})', pre=N, lt=['a']),
    'optstr':  Arg("Option<&'a str>", 'Some(&x{i})', pre=STR, lt=['a']),
    'optm':    Arg("Option<&'a mut u32>", 'Some(&mut x{i})', pre='let mut x{i} = {v} as u32;', after='x{i} as V', cmut='*{n}.unwrap() += 64;', lt=['a']),
    'res':     Arg('Result<u32, String>', 'Ok({v} as u32)'),
    'aliasg':  Arg('AliasG<u32>', 'Ok({v} as u32)'),
    'nested':  Arg('Vec<Option<(u32, Result<u32, String>)>>', 'vec![Some((7, Ok(8))), Some(({v} as u32, Ok({v} as u32 + 1)))]'),
    'nd':      Arg('NonDebug', 'NonDebug({v})'),
    'ndr':     Arg('&NonDebug', '&NonDebug({v})'),
    'own':     Arg('Own', 'Own({v})'),
    'rc':      Arg('Rc<u32>', 'Rc::new({v} as u32)'),
    'cell':    Arg('&std::cell::Cell<u32>', '&x{i}', pre='let x{i} = std::cell::Cell::new({v} as u32);', after='x{i}.get() as V', cmut='{n}.set({n}.get() + 64);'),
    'ptr':     Arg('*const u32', '&x{i}', pre=N),
    'box':     Arg('Box<u32>', 'Box::new({v} as u32)'),
    'boxdyn':  Arg('Box<dyn DecT>', 'Box::new(DV({v}))', dec='{n}.d()'),
    'boxdynl': Arg("Box<dyn DecT + 'a>", 'Box::new(DV({v}))', dec='{n}.d()', lt=['a']),
    'dynr':    Arg('&dyn DecT', '&x{i}', dec='{n}.d()', pre='let x{i} = DV({v});'),
    'dynrs':   Arg('&(dyn DecT + Send)', '&x{i}', dec='{n}.d()', pre='let x{i} = DV({v});'),
    'dynm':    Arg('&mut dyn DecT', '&mut x{i}', dec='{n}.d()', pre='let mut x{i} = DV({v});', after='x{i}.0', cmut='{{ let q = {n}.d(); {n}.s(q + 64); }}'),
    'dynhr':   Arg("&dyn for<'x> DecL<'x>", '&DV({v})', dec='{n}.l(&0)'),
    'dyng':    Arg('Arc<dyn DecG<Vec<u8>>>', 'Arc::new(DV({v}))', dec='{n}.g()'),
    'fnp':     Arg('fn(u32) -> u32', 'fnp({v})'),
    'fnphr':   Arg("for<'x> fn(&'x u32) -> &'x u32", 'idr', dec='(*{n}(&{v}) as V)'),
    'lt':      Arg('&Lt<\'a>', '&Lt(&x{i})', pre=N, lt=['a']),
    'lta':     Arg("Lt<'a>", 'Lt(&x{i})', pre=N, lt=['a']),
    'lt2':     Arg("Lt2<'a, 'b>", 'Lt2(&x{i}, &x{i})', pre=N, lt=['a', 'b']),
    'lts':     Arg("&'a mut u32", '&mut x{i}', pre='let mut x{i} = {v} as u32;', after='x{i} as V', cmut='*{n} += 64;', lt=['a']),
    'stra':    Arg("&'a str", '&x{i}', pre=STR, lt=['a']),
    'sstr':    Arg("&'static str", 'STRS[{v}]'),
    'ltarr':   Arg("[&'a u32; 2]", '[&7, &x{i}]', pre=N, dec='{{ assert_eq!(*{n}[0], 7); *{n}[1] as V }}', lt=['a']),
    'ltopt':   Arg("Option<(u32, Option<&'a str>)>", 'Some((7, Some(&x{i}[..])))', pre=STR, dec='{n}.unwrap().1.unwrap().dec()', lt=['a']),
    'ltass':   Arg("Box<dyn DecI<I = &'a u32> + Send + 'static>", 'Box::new(LtI(std::marker::PhantomData, {v}))', dec='{n}.i()', lt=['a']),
    'ltassb':  Arg("Box<dyn DecI<I = Vec<Option<&'a u32>>>>", 'Box::new(LtI(std::marker::PhantomData, {v}))', dec='{n}.i()', lt=['a']),
    'ltdyng':  Arg("&(dyn DecG<&'a u32> + Send)", '&DV({v})', dec='{n}.g()', lt=['a']),
    'ltdynb':  Arg("Option<Box<dyn DecG<[&'a str; 1]>>>", 'Some(Box::new(DV({v})))', dec='{n}.as_ref().unwrap().g()', lt=['a']),
    'ltqs':    Arg("<Gen<&'a u32> as Proj>::P", '&x{i}', pre=N, lt=['a'], need=['impl']),
    'ltqp':    Arg("<u32 as ProjT<&'a u32>>::P", '&x{i}', pre=N, lt=['a'], need=['impl']),
    'ltseg':   Arg("deep::er::Ltd<'a>", '&x{i}', pre=N, lt=['a']),
    'ltptr':   Arg("*const &'a u32", '&&x{i}', pre=N, lt=['a']),
    'ltparen': Arg("&'a (dyn DecL<'a> + 'a)", '&DV({v})', dec='{n}.l(&0)', lt=['a']),
    'ltfn':    Arg("Box<dyn Fn(&'a u32) -> u32 + Send>", 'Box::new(move |q| *q + {v} as u32)', dec='({n}(&0) as V)', lt=['a'], need=['fnobj']),
    'ltfnr':   Arg("&dyn Fn(u32) -> Lt<'a>", '&|q| Lt(&NUMS[q as usize + {v}])', dec='{n}(0).dec()', lt=['a'], need=['fnobj']),
    'bareT':   Arg('(T, fn(u32) -> u32)', '(STRS[{v}].to_string(), fnp({v}))', dec='{{ assert_eq!({n}.1(0) as V, {n}.0.dec()); {n}.0.dec() }}', gen=[T], inst=TS),
    'barelt':  Arg("fn(Lt<'a>) -> u32", 'fnlt({v})', dec='({n}(Lt(&0)) as V)', lt=['a']),
    'sup':     Arg('super::up::deep::er::Ty', '{v} as u32'),
    'supr':    Arg("&super::up::Lt<'a>", '&Lt(&x{i})', pre=N, lt=['a']),
    'supgen':  Arg('Option<super::up::Gen<super::up::deep::er::Ty>>', 'Some(Gen({v} as u32))'),
    'suparr':  Arg('[u8; super::up::LEN]', '[7u8, {v}]'),
    'suparr2': Arg("Gen<&'a [u8; 1 + super::up::LEN - 1]>", 'Gen(&x{i})', pre='let x{i} = [7u8, {v}];', lt=['a']),
    'supcn':   Arg('Cn2<{{ super::up::LEN }}>', 'Cn2::<2>({v})'),
    'supdyn':  Arg('Box<dyn super::up::DecG<super::up::deep::er::Ty> + Send>', 'Box::new(DV({v}))', dec='{n}.g()'),
    'supfn':   Arg('fn(super::up::Alias) -> super::up::Alias', 'fnp({v})'),
    'supfno':  Arg('Box<dyn Fn(super::up::Alias) -> super::up::Alias + Send>', 'Box::new(move |q| q + {v} as u32)', dec='({n}(0) as V)', need=['fnobj']),
    'supq':    Arg('<super::up::Gen<u32> as super::up::Proj>::P', '{v} as u32', need=['impl']),
    'suptup':  Arg("(super::up::Alias, &'a [super::up::Alias])", '({v}, &[7, {v}][..])', dec='{n}.1.dec()', lt=['a']),
    'supptr':  Arg('*const super::up::Alias', '&x{i}', pre=N),
    'supT':    Arg('T', 'STRS[{v}].to_string()', gen=[("T", "super::up::Dec + super::up::deep::er::Mark2<super::up::Alias> + 'static")], inst=TS),
    'ltbare':  Arg("fn(&'a u32) -> &'a u32", 'idr', dec='(*{n}(&{v}) as V)', lt=['a']),
    'lt3':     Arg("(&'a u32, Option<&'b u32>, Lt<'b>)", '(&x{i}, Some(&x{i}), Lt(&x{i}))', pre=N, dec='{{ assert_eq!({n}.0, {n}.1.unwrap()); {n}.2.dec() }}', lt=['a', 'b']),
    'cow':     Arg("Cow<'a, str>", 'Cow::Borrowed(&x{i}[..])', pre=STR, lt=['a']),
    'cn':      Arg('Cn<{v}>', 'Cn::<{v}>'),
    'garr':    Arg('Gen<[u8; 1 + 1]>', 'Gen([7u8, {v}])'),
    'T':       Arg('T', 'STRS[{v}].to_string()', gen=[T], inst=TS),
    'Tdbg':    Arg('T', 'STRS[{v}].to_string()', gen=[("T", "Dec + std::fmt::Debug + 'static")], inst=TS),
    'Tabs':    Arg('T', 'STRS[{v}].to_string()', gen=[("T", "::std::fmt::Debug + deep::er::Mark + Dec + 'static")], inst=TS),
    'Tr':      Arg('&T', '&x{i}', pre=STR, gen=[T], inst=TS),
    'Tun':     Arg('&Un', 'STRS[{v}]', gen=[("Un", "Dec + ?Sized + 'static")], inst={'Un': 'str'}),
    'Tm':      Arg('&mut T', '&mut x{i}', pre='let mut x{i} = STRS[{v}].to_string();', gen=[T], inst=TS),
    'Tv':      Arg('Vec<T>', 'vec![STRS[7].to_string(), STRS[{v}].to_string()]', gen=[T], inst=TS),
    'Tg':      Arg('Gen<T>', 'Gen(STRS[{v}].to_string())', gen=[T], inst=TS),
    'TU':      Arg('(T, U)', '(STRS[{v}].to_string(), {v} as u32 + 1)', gen=[T, ('U', "Dec + 'static")], inst={'T': 'String', 'U': 'u32'}),
    'Tdep':    Arg('Gen<(T, U)>', 'Gen((STRS[{v}].to_string(), {v} as u32 + 1))', gen=[T, ('U', "deep::er::Mark2<T> + Dec + 'static")], inst={'T': 'String', 'U': 'u32'}),
    'Tit':     Arg('It', 'vec![{v} as u32].into_iter()', dec='({n}.clone().next().unwrap() as V)', gen=[('It', "Iterator<Item = u32> + Clone + 'static")], inst={'It': 'std::vec::IntoIter<u32>'}),
    'clos':    Arg('F', 'move |q: u32| q + w{i}', dec='({n}(0) as V)', pre='let w{i} = {v} as u32;', gen=[('F', "Fn(u32) -> u32 + Send + 'static")]),
    'conc':    Arg('P', 'DV({v})', gen=[('P', 'Conc')], conc=True, dec='{n}.get()'),
    'concr':   Arg('&P', '&DV({v})', gen=[('P', 'Conc')], conc=True, dec='{n}.get()'),
    'concm':   Arg('&mut P', '&mut x{i}', pre='let mut x{i} = DV({v});', after='x{i}.0', cmut='{{ let q = {n}.get(); {n}.put(q + 64); }}', gen=[('P', 'Conc')], conc=True, dec='{n}.get()'),
    'concs':   Arg('&[P]', '&[DV(7), DV({v})]', gen=[('P', 'Conc')], conc=True, dec='{n}[1].get()'),
    'concas':  Arg('PA', 'STRS[{v}].to_string()', gen=[('PA', 'AsRef<str>')], conc=True, dec='{n}.as_ref().dec()'),
    'H':       Arg('HT', '{v} as u32', need=['H']),
    'Hr':      Arg('&HT', '&x{i}', pre=N, need=['H']),
    'Ho':      Arg('Option<Gen<HT>>', 'Some(Gen({v} as u32))', need=['H']),
    'HT':      Arg('(HT, T)', '({v} as u32, STRS[{v} + 1].to_string())', gen=[T], inst=TS, need=['H']),
    'A':       Arg('Self::A', '{v} as u32', need=['A']),
    'Ar':      Arg('&Self::A', '&x{i}', pre=N, need=['A']),
    'Av':      Arg('Vec<Option<Self::A>>', 'vec![Some(7), Some({v} as u32)]', need=['A']),
    'Aq':      Arg('<Self as Tr>::A', '{v} as u32', need=['A', 'Aq']),
    'selfr':   Arg('&Self', '&{own}', dec='{{ let _ = &{n}; {v} }}', need=['selfty']),
    'selfo':   Arg("Option<&'a Self>", 'Some(&{own})', dec='{{ let _ = &{n}; {v} }}', need=['selfty'], lt=['a']),
    'selfbare': Arg('fn(&Self) -> u32', '|_| {v} as u32', dec='{{ let _ = &{n}; {v} }}', need=['selfty']),
    'selfbarer': Arg('Option<for<\'x> fn(u32, &\'x Self) -> &\'x Self>', 'Some(|_, y| y)', dec='{{ let _ = {n}.unwrap(); {v} }}', need=['selfty']),
    'selffn':  Arg('Box<dyn Fn(&Self) -> u32>', 'Box::new(|_| {v} as u32)', dec='{{ let _ = &{n}; {v} }}', need=['selfty', 'fnobj']),
    'selffnr': Arg('&dyn Fn(u32) -> Box<Self>', '&|_| Box::new({own})', dec='{{ let _ = &{n}; {v} }}', need=['selfty', 'fnobj']),
    'selfv':   Arg('Self', '{own}', dec='{{ let _ = &{n}; {v} }}', need=['selfty']),
}
BD = '(Box::new(DV({v})) as Box<dyn DecT>)'
FUT = 'Box::pin(Slow(Some({v} as u32), 2))'
RETS = {
    'u32':    Ret('u32', '{v} as u32'),
    'none':   Ret(None, '()', dec='{{ let _: () = r; {v} }}'),
    'unit':   Ret('()', '()', dec='{{ let _: () = r; {v} }}'),
    'alias':  Ret('Alias', '{v} as u32'),
    'sup':    Ret('super::up::deep::er::Ty', '{v} as u32'),
    'suparr': Ret('[u8; super::up::LEN]', '[7u8, {v}]'),
    'supcn':  Ret('Cn2<{{ super::up::LEN }}>', 'Cn2::<2>({v})'),
    'supres': Ret('Result<super::up::Gen<super::up::Alias>, String>', 'Ok::<_, String>(Gen({v} as u32))'),
    'supref': Ret('&super::up::Gen<super::up::Alias>', 'Gen({v} as u32)', cls='ref', need=['ref', 'self']),
    'supmut': Ret('&mut super::up::Alias', '{v} as u32', cls='mut', need=['mut', 'self']),
    'supbox': Ret('Box<dyn super::up::DecG<super::up::Alias>>', '(Box::new(DV({v})) as Box<dyn DecG<u32>>)', 'r.g()', clone=False),
    'supdynr': Ret('&dyn super::up::DecT', '(Box::new(DV({v})) as Box<dyn DecT>)', 'r.d()', cls='ref', need=['ref', 'self'], send=False),
    'supimpl': Ret('impl super::up::DecT', BD, 'r.d()', clone=False, need=['impl']),
    'supfn':  Ret('fn(super::up::Alias) -> super::up::Alias', 'fnp({v})'),
    'supT':   Ret('T', 'STRS[{v}].to_string()', gen=[("T", "super::up::Dec + Clone + Send + super::up::deep::er::Mark2<super::up::Alias> + 'static")], inst=TS),
    'path_ty': Ret('deep::er::Ty', '{v} as u32'),
    'string': Ret('String', 'STRS[{v}].to_string()'),
    'opt':    Ret('Option<u32>', 'Some({v} as u32)'),
    'res':    Ret('Result<u32, String>', 'Ok::<u32, String>({v} as u32)'),
    'aliasg': Ret('AliasG<u32>', 'Ok::<u32, String>({v} as u32)'),
    'tup':    Ret('(u32, u32)', '({v} as u32, {v} as u32 + 1)'),
    'arr':    Ret('[u8; 2]', '[7u8, {v}]'),
    'vec':    Ret('Vec<u8>', 'vec![7u8, {v}]'),
    'nested': Ret('Vec<Option<(u32, Result<u32, String>)>>', 'vec![Some((7u32, Ok::<u32, String>(8))), Some(({v} as u32, Ok({v} as u32 + 1)))]'),
    'own':    Ret('Own', 'Own({v})', clone=False),
    'nd':     Ret('NonDebug', 'NonDebug({v})', clone=False),
    'rc':     Ret('Rc<u32>', 'Rc::new({v} as u32)', st=True),
    'sstr':   Ret("&'static str", 'STRS[{v}]'),
    'sref':   Ret("&'static u32", '&NUMS[{v}]'),
    'sopt':   Ret("Option<&'static str>", 'Some(STRS[{v}])'),
    'cow':    Ret("Cow<'static, str>", "Cow::<'static, str>::Borrowed(STRS[{v}])"),
    'ltst':   Ret("Lt<'static>", 'Lt(&NUMS[{v}])'),
    'lt_':    Ret("Lt<'_>", 'Lt(&NUMS[{v}])', need=['ref']),
    'ltr':    Ret("Lt<'r>", 'Lt(&NUMS[{v}])', lt=['r'], need=['self']),
    'lt2r':   Ret("Lt2<'r, 'q>", 'Lt2(&NUMS[{v}], &NUMS[{v}])', lt=['r', 'q'], need=['self']),
    'rltr':   Ret("&Lt<'r>", 'Lt(&NUMS[{v}])', lt=['r'], cls='ref', need=['self', 'ref']),
    'optr':   Ret("Option<&'r u32>", 'Some(&NUMS[{v}])', lt=['r'], need=['self']),
    'resr':   Ret("Result<&'r str, String>", "Ok::<&'static str, String>(STRS[{v}])", lt=['r'], need=['self']),
    'cowr':   Ret("Cow<'_, str>", "Cow::<'static, str>::Borrowed(STRS[{v}])", need=['ref']),
    'fnp':    Ret('fn(u32) -> u32', 'fnp({v})'),
    'box':    Ret('Box<u32>', 'Box::new({v} as u32)'),
    'boxdyn': Ret('Box<dyn DecT>', BD, 'r.d()', clone=False),
    'boxdynl': Ret("Box<dyn DecT + 'r>", BD, 'r.d()', clone=False, lt=['r'], need=['self']),
    'boxdyns': Ret("Box<dyn DecT + Send + Sync + 'static>", '(Box::new(DV({v})) as Box<dyn DecT + Send + Sync>)', 'r.d()', clone=False),
    'boxdyng': Ret("Box<dyn DecG<Vec<u8>>>", '(Box::new(DV({v})) as Box<dyn DecG<Vec<u8>>>)', 'r.g()', clone=False),
    'impl':   Ret('impl DecT', BD, 'r.d()', clone=False, need=['impl']),
    'impls':  Ret("impl DecT + Send + Sync + 'static", '(Box::new(DV({v})) as Box<dyn DecT + Send + Sync>)', '{{ fn s<T: Send + Sync + \'static>(_: &T) {{}} s(&r); r.d() }}', clone=False, need=['impl']),
    'iter':   Ret('impl Iterator<Item = u32>', '(Box::new(vec![{v} as u32].into_iter()) as Box<dyn Iterator<Item = u32>>)', 'r.collect::<Vec<_>>()[0].dec()', clone=False, need=['impl']),
    'dbli':   Ret('impl DoubleEndedIterator<Item = u32> + Send', '(Box::new(vec![9u32, {v} as u32].into_iter()) as Box<dyn DoubleEndedIterator<Item = u32> + Send>)', 'r.rev().next().unwrap().dec()', clone=False, need=['impl']),
    'fut':    Ret('impl Future<Output = u32> + Send', FUT + ' as Pin<Box<dyn Future<Output = u32> + Send>>', clone=False, wrap='block_on({c})', need=['impl']),
    'futl':   Ret("impl std::future::Future<Output = Result<u32, String>>", 'Box::pin(Slow(Some(Ok::<u32, String>({v} as u32)), 2)) as Pin<Box<dyn Future<Output = Result<u32, String>>>>', clone=False, wrap='block_on({c})', need=['impl']),
    'pinfut': Ret('Pin<Box<dyn Future<Output = u32> + Send>>', FUT + ' as Pin<Box<dyn Future<Output = u32> + Send>>', clone=False, wrap='block_on({c})'),
    'pinfutl': Ret("Pin<Box<dyn Future<Output = u32> + Send + 'r>>", FUT + ' as Pin<Box<dyn Future<Output = u32> + Send>>', clone=False, wrap='block_on({c})', lt=['r'], need=['self']),
    'async':  Ret('u32', '{v} as u32', wrap='block_on({c})', asyn=True, need=['async']),
    'asyncs': Ret('String', 'STRS[{v}].to_string()', wrap='block_on({c})', asyn=True, need=['async']),
    'asyncn': Ret(None, '()', dec='{{ let _: () = r; {v} }}', wrap='block_on({c})', asyn=True, need=['async']),
    'asyncr': Ret('Result<Vec<u8>, String>', 'Ok::<Vec<u8>, String>(vec![7, {v}])', wrap='block_on({c})', asyn=True, need=['async']),
    'asyncT': Ret('T', 'STRS[{v}].to_string()', gen=[("T", "Dec + Clone + Send + Sync + 'static")], inst=TS, wrap='block_on({c})', asyn=True, need=['async']),
    'T':      Ret('T', 'STRS[{v}].to_string()', gen=[TC], inst=TS),
    'To':     Ret('Option<T>', 'Some(STRS[{v}].to_string())', gen=[TC], inst=TS),
    'TU':     Ret('(T, U)', '(STRS[{v}].to_string(), {v} as u32 + 1)', gen=[TC, ('U', "Dec + Clone + 'static")], inst={'T': 'String', 'U': 'u32'}),
    'Tg':     Ret('Result<Gen<T>, String>', 'Ok::<_, String>(Gen(STRS[{v}].to_string()))', gen=[TC], inst=TS),
    'Tdef':   Ret('T', 'STRS[{v}].to_string()', gen=[("T", "Dec + Clone + Default + Into<Box<str>> + 'static")], inst=TS),
    'H':      Ret('HT', '{v} as u32', need=['H']),
    'Ho':     Ret('Option<Gen<HT>>', 'Some(Gen({v} as u32))', need=['H']),
    'Hr':     Ret('&HT', '{v} as u32', cls='ref', need=['H', 'ref', 'self']),
    'Hm':     Ret('&mut HT', '{v} as u32', cls='mut', need=['H', 'mut', 'self']),
    'A':      Ret('Self::A', '{v} as u32', need=['A']),
    'Ar':     Ret('&Self::A', '{v} as u32', cls='ref', need=['A', 'ref', 'self']),
    'Am':     Ret('&mut Self::A', '{v} as u32', cls='mut', need=['A', 'mut', 'self']),
    'Ao':     Ret('Result<Option<Self::A>, String>', 'Ok::<_, String>(Some({v} as u32))', need=['A']),
    'Aq':     Ret('<Self as Tr>::A', '{v} as u32', need=['A', 'Aq']),
    'Adyn':   Ret('Box<dyn DecG<Self::A>>', '(Box::new(DV({v})) as Box<dyn DecG<u32>>)', 'r.g()', clone=False, need=['A']),
    'self':   Ret('Self', '{mock}', dec='{{ let _: &Mock = &r; {v} }}', clone=False, need=['selfty'], selfty=True),
    'selfb':  Ret('Box<Self>', 'Box::new({mock})', dec='{{ let _: &Mock = &r; {v} }}', clone=False, need=['selfty'], selfty=True),
    'selfres': Ret('Result<Self, String>', 'Ok::<_, String>({mock})', dec='{{ let _: Mock = r.unwrap(); {v} }}', clone=False, need=['selfty', 'sized'], selfty=True),
    'u32r':   Ret('&u32', '{v} as u32', cls='ref', need=['ref', 'self']),
    'strr':   Ret('&str', 'STRS[{v}].to_string()', cls='ref', need=['ref', 'self']),
    'slicer': Ret('&[u8]', 'vec![7u8, {v}]', cls='ref', need=['ref', 'self']),
    'pathr':  Ret('&Path', 'PathBuf::from(STRS[{v}])', cls='ref', need=['ref', 'self']),
    'osr':    Ret('&OsStr', 'OsString::from(STRS[{v}])', cls='ref', need=['ref', 'self']),
    'cstrr':  Ret('&CStr', 'CString::new(STRS[{v}]).unwrap()', cls='ref', need=['ref', 'self']),
    'stringr': Ret('&String', 'STRS[{v}].to_string()', cls='ref', need=['ref', 'self']),
    'vecr':   Ret('&Vec<u8>', 'vec![7u8, {v}]', cls='ref', need=['ref', 'self']),
    'tupr':   Ret('&(u32, u32)', '({v} as u32, {v} as u32 + 1)', cls='ref', need=['ref', 'self']),
    'dynr':   Ret('&dyn DecT', '(Box::new(DV({v})) as Box<dyn DecT>)', 'r.d()', cls='ref', need=['ref', 'self'], send=False),
    'dynrss': Ret('&(dyn DecT + Send + Sync)', '(Box::new(DV({v})) as Box<dyn DecT + Send + Sync>)', 'r.d()', cls='ref', need=['ref', 'self']),
    'Tr':     Ret('&T', 'STRS[{v}].to_string()', cls='ref', gen=[T], inst=TS, need=['ref', 'self']),
    'u32m':   Ret('&mut u32', '{v} as u32', cls='mut', need=['mut', 'self']),
    'strm':   Ret('&mut str', 'STRS[{v}].to_string()', cls='mut', need=['mut', 'self']),
    'slicem': Ret('&mut [u8]', 'vec![7u8, {v}]', cls='mut', need=['mut', 'self']),
    'stringm': Ret('&mut String', 'STRS[{v}].to_string()', cls='mut', need=['mut', 'self']),
    'dynm':   Ret('&mut dyn DecT', '(Box::new(DV({v})) as Box<dyn DecT>)', 'r.d()', cls='mut', need=['mut', 'self'], send=False),
    'Tm':     Ret('&mut T', 'STRS[{v}].to_string()', cls='mut', gen=[T], inst=TS, need=['mut', 'self']),
}

class Recv:
    """how: ref, mut, val, other; take: how to call"""
    def __init__(s, sig, how, call, take, tags=(), lt=(), pre=''):
        s.pre = pre
        s.sig, s.how, s.call, s.take, s.tags, s.lt = sig, how, call, take, set(tags), lt
RECVS = {
    '&self':     Recv('&self', 'ref', 'm', '&mut X', ['self', 'ref', 'dyn']),
    '&mut self': Recv('&mut self', 'mut', 'm', '&mut X', ['self', 'ref', 'mut', 'dyn']),
    'static':    Recv('', 'static', '', '', []),
    'self':      Recv('self', 'val', 'm', 'X', ['self']),
    'mut self':  Recv('mut self', 'val', 'm', 'X', ['self', 'mutpat']),
    "&'s self":  Recv("&'s self", 'ref', 'm', '&mut X', ['self', 'ref', 'selflt', 'dyn'], lt=['s']),
    "&'s mut self": Recv("&'s mut self", 'mut', 'm', '&mut X', ['self', 'ref', 'selflt', 'mut', 'dyn'], lt=['s']),
    'self: &Self': Recv('self: &Self', 'ref', 'm', '&mut X', ['self', 'ref', 'dyn']),
    'self: &mut Self': Recv('self: &mut Self', 'mut', 'm', '&mut X', ['self', 'ref', 'mut', 'dyn']),
    'Box<Self>': Recv('self: Box<Self>', 'val', 'Box::new(m)', 'X', ['self', 'dyn']),
    'mut Box<Self>': Recv('mut self: Box<Self>', 'val', 'Box::new(m)', 'X', ['self', 'mutpat']),
    'Rc<Self>':  Recv('self: Rc<Self>', 'val', 'Rc::new(m)', 'X', ['self', 'dyn']),
    'Arc<Self>': Recv('self: Arc<Self>', 'val', 'Arc::new(m)', 'X', ['self', 'dyn']),
    'Pin<&mut Self>': Recv('self: Pin<&mut Self>', 'mut', 'Pin::new(m)', '&mut X', ['self', 'ref', 'dyn']),
    'Pin<&Self>': Recv('self: Pin<&Self>', 'ref', 'Pin::new(&*m)', '&mut X', ['self', 'ref', 'dyn']),
    'Pin<Box<Self>>': Recv('self: Pin<Box<Self>>', 'val', 'Box::pin(m)', 'X', ['self', 'dyn']),
    '&Box<Self>': Recv('self: &Box<Self>', 'val', '(&q)', 'X', ['self', 'ref'], pre='let q = Box::new(m);'),
    '&Arc<Self>': Recv('self: &Arc<Self>', 'val', '(&q)', 'X', ['self', 'ref'], pre='let q = Arc::new(m);'),
}
QUALS = ['', 'unsafe', 'extern "C"', 'unsafe extern "C"', 'default body', 'where Self: Sized', 'where', 'raw', 'vis']

class Spec:
    __slots__ = ('host', 'recv', 'args', 'ret', 'qual', 'key')
    def __init__(s, host, recv, args, ret, qual):
        s.host, s.recv, s.args, s.ret, s.qual = host, recv, args, ret, qual
        s.key = '%s | %s | %s | %s%s' % (host, recv, ', '.join(args) or '-', ret, ' | ' + qual if qual else '')

class Host:
    """kind: trait, inherent, module, foreign; tags: what its methods may use;
    bound: the bound on X in a generic function; mock: the mock's type"""
    def __init__(s, kind, tags, mock='MockFoo', bound=None, path=None, hdr=None, sep=None):
        s.kind, s.tags, s.mock, s.bound = kind, set(tags), mock, bound
        s.path = path or mock.replace('<', '::<', 1)
GH = "HT: Dec + Clone + Send + 'static"
HOSTS = {
    'automock trait':            Host('trait', ['self', 'static', 'default', 'selfty', 'rpit']),
    'automock unsafe trait':     Host('trait', ['self', 'static', 'default', 'selfty', 'rpit']),
    'automock trait: Send + Sync': Host('trait', ['self', 'static', 'default', 'selfty', 'rpit']),
    'automock trait with const': Host('trait', ['self', 'static', 'default', 'selfty', 'rpit']),
    'automock generic trait':    Host('trait', ['self', 'static', 'default', 'selfty', 'H', 'rpit'], 'MockFoo<u32>', 'Tr<u32>'),
    'automock generic trait where': Host('trait', ['self', 'static', 'default', 'selfty', 'H'], 'MockFoo<u32>', 'Tr<u32>'),
    'automock two parameters':   Host('trait', ['self', 'static', 'selfty', 'H'], 'MockFoo<u32, String>', 'Tr<u32, String>'),
    'automock trait with type':  Host('trait', ['self', 'static', 'default', 'A', 'Aq', 'selfty'], bound='Tr<A = u32>'),
    'automock trait with types': Host('trait', ['self', 'static', 'A', 'H'], 'MockFoo<u32>', 'Tr<u32, A = u32, B = Vec<u32>>'),
    'automock async_trait':      Host('trait', ['self', 'static', 'async']),
    'automock impl':             Host('inherent', ['self', 'static', 'impl', 'selfty', 'async', 'sized']),
    'automock generic impl':     Host('inherent', ['self', 'static', 'impl', 'H', 'selfty', 'sized'], 'MockFoo<u32>'),
    'automock generic impl where': Host('inherent', ['self', 'static', 'H', 'sized'], 'MockFoo<u32>'),
    "automock impl<'nss>":       Host('inherent', ['self', 'static', 'nss'], "MockFoo<'static>"),
    'automock impl Trait for':   Host('trait', ['self', 'static']),
    'automock impl Trait<u32> for': Host('trait', ['self', 'static'], bound='Tr<u32>'),
    'automock generic impl Trait for': Host('trait', ['self', 'static', 'H'], 'MockFoo<u32>', 'Tr<u32>'),
    'automock impl Trait with type for': Host('trait', ['self', 'static', 'A'], bound='Tr<A = u32>'),
    'mock!':                     Host('inherent', ['self', 'static', 'impl', 'async', 'selfty', 'sized']),
    'mock! generic':             Host('inherent', ['self', 'static', 'impl', 'async', 'H', 'selfty', 'sized'], 'MockFoo<u32>'),
    'mock! generic where':       Host('inherent', ['self', 'static', 'impl', 'async', 'H', 'sized'], 'MockFoo<u32>'),
    'mock! two parameters':      Host('inherent', ['self', 'static', 'impl', 'async', 'H', 'sized'], 'MockFoo<u32, String>'),
    'mock! impl Trait':          Host('trait', ['self', 'static', 'selfty', 'async', 'rpit']),
    'mock! impl unsafe Trait':   Host('trait', ['self', 'static', 'selfty', 'async']),
    'mock! impl path::Trait':    Host('trait', ['self', 'static', 'selfty', 'async']),
    'mock! impl two Traits':     Host('trait', ['self', 'static', 'selfty', 'async']),
    'mock! impl Trait<u32>':     Host('trait', ['self', 'static', 'selfty', 'async'], bound='Tr<u32>'),
    'mock! generic impl Trait':  Host('trait', ['self', 'static', 'selfty', 'async', 'gen'], 'MockFoo<u32>'),
    'mock! generic impl Trait<HT>': Host('trait', ['self', 'static', 'H', 'async'], 'MockFoo<u32>', 'Tr<u32>'),
    'mock! generic impl where':  Host('trait', ['self', 'static', 'H', 'async'], 'MockFoo<u32>', 'Tr<u32>'),
    'mock! impl Trait for Foo<u32>': Host('trait', ['self', 'static', 'selfty', 'gen', 'specific'], 'MockFoo<u32>'),
    'mock! impl Trait with type': Host('trait', ['self', 'static', 'A', 'selfty', 'async'], bound='Tr<A = u32>'),
    'mock! impl Trait with type = HT': Host('trait', ['self', 'static', 'A', 'async', 'gen'], 'MockFoo<u32>', bound='Tr<A = u32>'),
    'mock! async_trait':         Host('trait', ['self', 'static', 'async']),
    'automock mod':              Host('module', ['static', 'impl', 'async'], 'mock_inner'),
    'automock private mod':      Host('module', ['static', 'async'], 'mock_inner'),
    'automock extern "C"':       Host('foreign', ['static'], 'mock_ffi'),
    'automock extern "Rust"':    Host('foreign', ['static'], 'mock_ffi'),
}
DEF = dict(host='automock trait', recv='&self', args=('u32',), ret='u32', qual='')

def tags(sp):
    h, r = HOSTS[sp.host], RECVS[sp.recv]
    t = h.tags - {'self'} | r.tags
    if h.kind == 'trait' and 'async' in h.tags and 'async_trait' not in sp.host: t.discard('async_x')
    return t

def ok(sp):
    """Is this combination within what mockall documents (and Rust accepts)?"""
    h, r, ret = HOSTS[sp.host], RECVS[sp.recv], RETS[sp.ret]
    args = [ARGS[a] for a in sp.args]
    have = h.tags | r.tags | ({'fnobj'} if sp.host.startswith('mock!') else set())
    static = r.how == 'static'
    if static and 'static' not in h.tags or not static and 'self' not in h.tags: return False
    have.discard('self')
    if not static: have.add('self')
    else: have -= {'ref', 'mut'}
    for a in args:
        if not a.need <= have: return False
    if not ret.need <= have: return False
    g = [n for x in args + [ret] for n, _ in x.gen]
    # --- Rust's own rules
    if static and ret.cls != 'static': return False
    if h.kind in ('module', 'foreign') and sp.qual in ('where Self: Sized', 'default body'): return False
    if h.kind == 'foreign':
        if g or ret.asyn or sp.qual or any(a.conc or a.lt or a.pat for a in args): return False
    if sp.qual == 'default body' and ('default' not in h.tags or sp.args and any(a.pat for a in args) and h.kind == 'trait'): return False
    if sp.qual == 'vis' and h.kind not in ('inherent', 'module'): return False
    if sp.qual == 'where Self: Sized' and h.kind != 'trait': return False
    if sp.qual.endswith('extern "C"') and ret.asyn: return False
    if 'async_trait' in sp.host and not ret.asyn and False: return False
    # elided lifetimes in the return type need an unambiguous source
    # patterns are not allowed in trait methods without a body
    if h.kind == 'trait' and (any(a.pat for a in args) or 'mutpat' in r.tags) and 'automock impl' not in sp.host and 'for' not in sp.host.split()[-1:]: return False
    if any(a.need & {'selfty'} for a in args) and h.kind == 'trait' and 'Self' in [a.ty for a in args] + [ret.ty] and False: return False
    if sp.qual == 'where' and not g: return False
    # The object given as an argument is a mock, too
    return all(rule(sp, h, r, ret, args, g, static) for rule in RULES)

# "no method may have both generic lifetime parameters and generic type parameters"
def no_lt_and_type(sp, h, r, ret, args, g, static):
    return not (g and (r.lt or ret.lt or any(a.lt for a in args)))
def dyn_and_type(sp, h, r, ret, args, g, static):
    """a reference to a trait object has a lifetime parameter, too"""
    return not (g and any(a in ('dynr', 'dynrs', 'dynm', 'dynhr') for a in sp.args))
def conc_all(sp, h, r, ret, args, g, static):
    """concretize turns every type parameter into a trait object"""
    return not any(a.conc for a in args) or all(x in ('P', 'PA') for x in g)
def specific(sp, h, r, ret, args, g, static):
    """impls for specific types: no generic methods (a TODO in tests/specific_impl.rs), plain receivers"""
    selfish = any('selfty' in a.need for a in args) or 'selfty' in ret.need
    return 'specific' not in h.tags or not g and not selfish and sp.recv in ('&self', '&mut self', 'self')
def pinned(sp, h, r, ret, args, g, static):
    """no references from pinned receivers"""
    return ret.cls == 'static' or not sp.recv.startswith('Pin<&')
def unsend(sp, h, r, ret, args, g, static):
    """a stored return value that is not Send makes the mock so"""
    return ret.send or not (g or 'Send' in sp.host or 'async_trait' in sp.host)
def unsized_self(sp, h, r, ret, args, g, static):
    """Rust: a body cannot take or return an unsized Self"""
    return sp.qual != 'default body' or not (r.sig in ('self', 'mut self') or any(a.ty == 'Self' for a in args) or ret.ty == 'Self')
def two_params(sp, h, r, ret, args, g, static):
    """a ?Sized parameter must be the only one (the key of its expectations is a tuple); closures have different types"""
    return not ('Un' in g and set(g) != {'Un'}) and sp.args != ('clos', 'clos')
RULES = [two_params, no_lt_and_type, dyn_and_type, conc_all, specific, pinned, unsend, unsized_self]

CORE_RETS = ('u32', 'opt', 'lta', 'ltr', 'u32r', 'strr', 'boxdyn', 'T', 'Tr', 'impl', 'self', 'async', None)
CORE_ARGS = ('u32', 'str', 'lta', 'T', 'Tr', 'dynr', 'fnp', 'selfr', 'stra', 'mslice')
def rare(x): return bool(x) and (x.startswith('lt') and x not in ('lt', 'lta', 'lt2', 'lts', 'ltr') or x.startswith('sup') or x in ('selfbare', 'selfbarer', 'selffn', 'selffnr', 'bareT', 'barelt'))
def enumerate_specs(tier):
    """All signatures in which at most two features differ from the default one.

    quick leaves out the pairs with a second argument; thorough adds all triples
    of a host, a receiver and a return type."""
    dims = [list(HOSTS), list(RECVS), list(ARGS), [None] + list(ARGS), list(RETS), QUALS]
    base = (DEF['host'], DEF['recv'], 'u32', None, 'u32', '')
    seen = set()
    def new(sp):
        if sp.key in seen or not ok(sp): return False
        seen.add(sp.key)
        return True
    for k in range(3):
        for which in itertools.combinations(range(6), k):
            if k == 2 and 3 in which and tier == 'quick': continue
            thin = k == 2 and 2 in which and 4 in which and tier == 'quick'
            for vals in itertools.product(*[[x for x in dims[d] if x != base[d]] for d in which]):
                c = list(base)
                for d, v in zip(which, vals): c[d] = v
                if thin and (rare(c[2]) and c[4] not in CORE_RETS or rare(c[4]) and c[2] not in CORE_ARGS): continue
                sp = Spec(c[0], c[1], tuple(x for x in (c[2], c[3]) if x), c[4], c[5])
                if new(sp): yield sp
    # without arguments
    for h in HOSTS:
        for r in RECVS:
            for t in RETS:
                n = (h != base[0]) + (r != base[1]) + (t != base[4])
                if n > {'quick': 1, 'pairs': 2}.get(tier, 3): continue
                sp = Spec(h, r, (), t, '')
                if new(sp): yield sp

class Fn:
    """A method of a generated host"""
    def __init__(s, k, sp):
        s.k, s.sp, s.h, s.r, s.ret = k, sp, HOSTS[sp.host], RECVS[sp.recv], RETS[sp.ret]
        s.args = [ARGS[a] for a in sp.args]
        s.base = ('r#fn' if False else 'f') + str(k)
        s.name = 'f%d' % k
        s.static = s.r.how == 'static'
        gs, s.inst, s.wh = {}, {}, []
        for x in s.args + [s.ret]:
            for n, b in x.gen:
                # the longer of two bounds on one parameter includes the other
                parts = gs.setdefault(n, [])
                for p in b.split(' + '):
                    if p not in parts: parts.append(p)
            s.inst.update(x.inst)
        s.gs = {n: ' + '.join(sorted(p, key=lambda q: q == "'static")) for n, p in gs.items()}
        lts = []
        for l in list(s.r.lt) + [l for x in s.args + [s.ret] for l in x.lt]:
            if l not in lts: lts.append(l)
        s.lts = lts
        s.conc = any(a.conc for a in s.args)
        s.clos = any(n == 'F' for n in s.gs)
    def val(s, i): return i + 1
    def f(s, t, i=0, v=None, n=''):
        mock = '<%s>::default()' % s.h.mock
        return t.replace('{mock}', mock).replace('{own}', 'X::default()' if s.h.kind in ('trait', 'inherent') else mock).format(i=i, v=s.val(i) if v is None else v, n=n)
    def generics(s):
        inline = s.sp.qual != 'where'
        g = ["'" + l for l in s.lts] + [n + (': ' + b if inline else '') for n, b in s.gs.items()]
        w = [] if inline else [n + ': ' + b for n, b in s.gs.items()]
        if s.sp.qual == 'where Self: Sized': w.append('Self: Sized')
        return ('<%s>' % ', '.join(g) if g else ''), (' where ' + ', '.join(w) if w else '')
    def argty(s, i): return s.f(s.args[i].ty, i)
    def qualifier(s):
        q = {'unsafe': 'unsafe ', 'extern "C"': 'extern "C" ', 'unsafe extern "C"': 'unsafe extern "C" '}.get(s.sp.qual, '')
        return ('async ' if s.ret.asyn else '') + q
    def argname(s, i):
        if s.sp.qual == 'raw': return ['r#type', 'r#match'][i]
        return 'a%d' % i
    def fname(s): return s.name
    def sig(s, vis='', mirror=False, orig=True):
        g, w = s.generics()
        a = [s.r.sig.replace('mut self', 'self') if mirror and s.r.sig.startswith('mut ') else s.r.sig] if not s.static else []
        a += ['%s%s: %s' % ('' if mirror else x.pat, s.argname(i), s.argty(i)) for i, x in enumerate(s.args)]
        ret = '' if s.ret.ty is None else ' -> ' + s.ret.ty
        at = '#[mockall::concretize] ' if s.conc and not mirror else ''
        if s.sp.qual == 'vis': vis = 'pub(crate) '
        return '%s%s%sfn %s%s(%s)%s%s' % (at, vis, s.qualifier(), s.fname(), g, ', '.join(a), ret, w)
    def tf(s, expect=False):
        """turbofish of the method's type parameters"""
        if not s.gs or s.conc: return ''
        g = [s.inst.get(n, '_') for n in s.gs if n != 'F' or not expect]
        return '::<%s>' % ', '.join(g) if g else ''
    def closure(s, muts=True, byref=False):
        return ', '.join(('mut ' if False else '') + 'a%d' % i for i in range(len(s.args)))
    def matcher(s):
        if not s.args: return ''
        c = ' && '.join('%s == %d' % (s.f(a.dec, i, n='a%d' % i).replace('let _: &Mock = &', 'let _: &&Mock = &' if False else 'let _: &Mock = &'), s.val(i)) for i, a in enumerate(s.args))
        return '.withf(|%s| %s)' % (s.closure(), c)
    def body(s, v):
        muts = ' '.join(s.f(a.cmut, i, n='a%d' % i) for i, a in enumerate(s.args) if a.cmut)
        return '{ %s %s }' % (muts, s.f(s.ret.mk, v=v))
    def setters(s):
        """How the return value can be set: (setter with value v, does it run a closure)"""
        c = s.closure()
        if s.ret.cls == 'static':
            r = [lambda v: ('returning_st' if s.ret.st else 'returning') + '(|%s| %s)' % (c, s.body(v))]
            r.append(lambda v: ('return_once_st' if s.ret.st else 'return_once') + '(move |%s| %s)' % (c, s.body(v)))
            if s.ret.clone and not any(a.cmut for a in s.args):
                r.append(lambda v: ('return_const_st' if s.ret.st else 'return_const') + '(%s)' % s.f(s.ret.mk, v=v))
            r.append(lambda v: 'returning_st({ let rc = Rc::new(0u8); move |%s| { let _ = &rc; %s } })' % (c, s.body(v)))
        elif s.ret.cls == 'ref':
            r = [lambda v: 'return_const(%s)' % s.f(s.ret.mk, v=v)]
        else:
            r = [lambda v: 'returning(|%s| %s)' % (c, s.body(v))]
            if not any(a.cmut for a in s.args): r.append(lambda v: 'return_var(%s)' % s.f(s.ret.mk, v=v))
            r.append(lambda v: 'returning_st({ let rc = Rc::new(0u8); move |%s| { let _ = &rc; %s } })' % (c, s.body(v)))
        return r
    def call(s, target):
        """statements that call the method and check the results; `want` is the value"""
        o = [s.r.pre]
        for i, a in enumerate(s.args):
            if a.pre: o.append(s.f(a.pre, i))
        ex = ', '.join(s.f(a.expr, i) for i, a in enumerate(s.args))
        c = '%s%s(%s)' % (target, s.tf(), ex)
        if 'unsafe' in s.sp.qual or s.h.kind == 'foreign': c = 'unsafe { %s }' % c
        o.append('let mut r = %s;' % s.ret.wrap.format(c=c))
        dec = s.f(s.ret.dec).replace('let _: &Mock', 'let _: &_').replace('let _: Mock', 'let _') if s.ret.selfty else s.f(s.ret.dec, v='want')
        if s.ret.selfty: o.append('{ %s; ck(true, ""); } let _ = want;' % dec)
        else: o.append('eq(%s, want, "return value");' % dec)
        for i, a in enumerate(s.args):
            if a.after: o.append('eq(%s, %d, "argument %d afterwards");' % (s.f(a.after, i), s.val(i) + (64 if s.ret.cls != 'ref' else 0), i))
        return ' '.join(o)
    def via(s):
        """A generic function (or mirror) through which the method is called"""
        h, n = s.h, s.name
        if h.kind in ('module', 'foreign'):
            return 'fn via%d(want: V) { %s }' % (s.k, s.call('%s::%s' % (h.mock, n)))
        bound = h.bound or 'Tr'
        if h.kind == 'inherent': bound = 'Mirror%d' % s.k
        X = '<X: %s%s>' % (bound, (' + Unpin' if 'Pin<' in s.sp.recv else '') + (' + Default' if any('selfty' in a.need for a in s.args) else ''))
        o = ''
        if h.kind == 'inherent':
            pass_ = ', '.join((['self'] if not s.static else []) + [s.argname(i) for i in range(len(s.args))])
            tf = '::<%s>' % ', '.join(s.gs) if s.gs and not s.conc else ''
            inner = '<%s>::%s%s(%s)' % (h.mock, n, tf, pass_)
            if 'unsafe' in s.sp.qual: inner = 'unsafe { %s }' % inner
            if s.ret.asyn: inner += '.await'
            sub = lambda x: x.replace('HT', 'u32')
            sig = sub(s.sig(mirror=True)).replace('pub(crate) ', '')
            o = 'trait Mirror%d: Sized { %s; } impl Mirror%d for %s { %s { %s } } ' % (s.k, sig, s.k, h.mock, sig.replace('mut self', 'self') if s.r.how == 'val' else sig, inner)
            o = o.replace('(mut self', '(self')
        if s.static:
            return o + 'fn via%d%s(want: V) { %s }' % (s.k, X, s.call('X::%s' % n))
        return o + 'fn via%d%s(m: %s, want: V) { %s }' % (s.k, X, s.r.take, s.call('%s.%s' % (s.r.call, n)))
    def driver(s):
        h, n, k = s.h, s.name, s.k
        tf = s.tf(True)
        o = []
        sets = s.setters()
        static = s.static
        if static:
            ctx = '%s::%s_context()' % (h.path if h.kind not in ('module', 'foreign') else h.mock, n)
            viaf = 'via%d%s' % (k, '::<%s>' % h.mock if h.kind in ('trait', 'inherent') else '')
            new = 'let m = %s;' % ctx
            exp = 'm.expect%s()' % tf
            call = lambda v: '%s(%d);' % (viaf, v)
            call_bad = call
        else:
            new = 'let mut m = <%s>::new();' % h.mock
            exp = 'm.expect_%s%s()' % (n, tf)
            ref = '&mut m' if s.r.how != 'val' else 'm'
            call = lambda v: 'via%d(%s, %d);' % (k, ref, v)
        byval = s.r.how == 'val'
        canpanic = 'extern' not in s.sp.qual
        E = lambda i, v, t=1: '%s%s.times(%d).%s;' % (exp, s.matcher(), t, sets[i % len(sets)](v))
        if byval:
            for i in range(len(sets)):
                o.append('{ %s %s silent("a call with an expectation", move || { %s }); }' % (new, E(i, 5), call(5)))
        else:
            # one after the other, each with its own way to return
            vals = [5 - (i % 3) for i in range(len(sets))]
            o.append('{ %s %s %s m.checkpoint(); %s %s }' % (
                new, ' '.join(E(i, v) for i, v in enumerate(vals)), ' '.join(call(v) for v in vals),
                E(0, 5), call(5)))
            # too many calls (a panic in an extern "C" function aborts)
            if canpanic: o.append('{ %s %s %s panics("one call too many", move || { %s %s drop(m); }); }' % (new, E(0, 5), call(5), '', call(5)))
        # no call at all
        o.append('{ %s %s panics("a missing call", move || drop(m)); }' % (new, E(min(1, len(sets) - 1), 5)))
        # no expectation
        if canpanic: o.append('{ %s panics("a call without expectation", move || { %s }); }' % (new, call(5).replace('(m, ', '(m, ')))
        # another argument value
        if canpanic and s.args and s.args[0].dec == '{n}.dec()' and s.sp.args[0] in ('u32', 'str', 'string', 'T'):
            bad = '%s.withf(|%s| a0.dec() == 8).times(0..2).%s;' % (exp, s.closure(), sets[0](5))
            o.append('{ %s %s panics("a call with another argument", move || { %s }); }' % (new, bad, call(5)))
        return 'pub fn t%d() { %s }' % (k, '\n'.join(o))

def host_code(host, fns):
    """-> list of (lines before, per-fn sig lines..., after) as [(fn or None, text)]"""
    h = HOSTS[host]
    o = []
    def each(vis='', end=';', body=None, assoc=None, **k):
        for f in fns:
            b = body if body and (body is not True) else None
            e = ' { %s }' % (f.f(f.ret.mk, v=0) if 'impl' in f.ret.need else 'unimplemented!()') if end == '{}' or (f.sp.qual == 'default body' and k.get('orig', True)) else ';'
            kk = dict(k); kk.pop('orig', None)
            x = f.sig(vis, **kk)
            # within mock!, an associated type is written as what it is
            if assoc: x = x.replace('Self::A', assoc)
            o.append((f, x + e))
    def t(x): o.append((None, x))
    W = GH
    if host in ('automock trait', 'automock unsafe trait', 'automock trait: Send + Sync', 'automock trait with const', 'automock generic trait',
                'automock generic trait where', 'automock two parameters', 'automock trait with type', 'automock trait with types', 'automock async_trait'):
        attr, head, extra = '#[automock]', 'pub trait Tr', ''
        if host == 'automock unsafe trait': head = 'pub unsafe trait Tr'
        if host == 'automock trait: Send + Sync': head += ': Send + Sync'
        if host == 'automock trait with const': extra = "const C: u32 = 3; const D: &'static str = \"d\";"
        if host == 'automock generic trait': head += '<%s>' % W
        if host == 'automock generic trait where': head += '<HT> where %s' % W
        if host == 'automock two parameters': head += "<HT: super::up::Dec + Clone + Send + 'static, HU> where HU: Clone + super::up::deep::er::Mark2<super::up::Alias> + Send + 'static"
        if host == 'automock trait with type': attr, extra = '#[automock(type A = u32;)]', "type A: Dec + Clone + 'static;"
        if host == 'automock trait with types': attr, head, extra = '#[automock(type A = u32; type B = Vec<u32>;)]', head + '<%s>' % W, "type A: Dec + Clone + 'static; type B;"
        if host == 'automock async_trait': attr += ' #[async_trait::async_trait]'
        t(attr); t(head.replace('Tr', 'Tr', 1) + ' {'); t(extra)
        each(); t('}')
        t('pub type Foo_ = ();')
    elif host in ('automock impl', 'automock generic impl', 'automock generic impl where', "automock impl<'nss>"):
        g = {'automock impl': ('', '', ''), 'automock generic impl': ('<%s>' % W, '<HT>', ''), 'automock generic impl where': ('<HT>', '<HT>', ' where ' + W),
             "automock impl<'nss>": ("<'nss>", "<'nss>", '')}[host]
        t('pub struct Foo%s %s;' % (g[0] + g[2] if "'nss" not in host else g[0], '') if not g[1] else
          ('pub struct Foo<HT>(std::marker::PhantomData<HT>);' if 'HT' in g[1] else "pub struct Foo<'nss>(&'nss u32);"))
        t('#[automock] impl%s Foo%s%s {' % g)
        each('pub ', '{}'); t('}')
    elif host.startswith('automock') and host.endswith('for'):
        tg, ig, tt, ta, st, extra, textra = '', '', '', '', 'Foo', '', ''
        if host == 'automock impl Trait<u32> for': tg, tt = '<Q>', '<u32>'
        if host == 'automock generic impl Trait for': tg, ig, tt, st = '<HT>', '<%s>' % W, '<HT>', 'Foo<HT>'
        if host == 'automock impl Trait with type for': textra, extra = "type A: Dec + Clone + 'static;", 'type A = u32;'
        t('pub struct Foo%s' % (';' if st == 'Foo' else '<HT>(std::marker::PhantomData<HT>);'))
        t('pub trait Tr%s { %s' % (tg, textra)); each(mirror=True); t('}')
        t('#[automock] impl%s Tr%s for %s { %s' % (ig, tt, st, extra)); each('', '{}'); t('}')
    elif host in ('mock!', 'mock! generic', 'mock! generic where', 'mock! two parameters'):
        g = {'mock!': ('', ''), 'mock! generic': ('<%s>' % W, ''), 'mock! generic where': ('<HT>', ' where ' + W), 'mock! two parameters': ("<HT: super::up::Dec + Clone + Send + 'static, HU: super::up::deep::er::Mark2<super::up::Alias> + Send + 'static>", '')}[host]
        t('mock! { pub Foo%s%s {' % g); each('pub '); t('} }')
    elif host.startswith('mock!'):
        attr, un, tg, te, ig, tt, st, mg, ie, path, w = '', '', '', '', '', '', 'Foo', '', '', '', ''
        own = 'fn own(&self) -> u32;'
        more = ''
        pre = ''
        if 'unsafe' in host: un = 'unsafe '
        if host == 'mock! impl path::Trait': path = 'self::sub::'
        if host == 'mock! impl two Traits': more, pre = ' impl Other for Foo { fn other(&self, x: u32) -> u32; fn st(x: u32) -> u32; } impl Clone for Foo { fn clone(&self) -> Self; }', 'pub trait Other { fn other(&self, x: u32) -> u32; fn st(x: u32) -> u32; }'
        if host == 'mock! impl Trait<u32>': tg, tt = '<Q>', '<u32>'
        if host == 'mock! generic impl Trait': mg, ig, st = '<%s>' % W, '<%s>' % W, 'Foo<HT>'
        if host == 'mock! generic impl Trait<HT>': tg, tt, mg, ig, st = '<HT>', '<HT>', '<%s>' % W, '<%s>' % W, 'Foo<HT>'
        if host == 'mock! generic impl where': tg, tt, mg, ig, st, w = '<HT>', '<HT>', '<%s>' % W, '<HT>', 'Foo<HT>', ' where ' + W
        if host == 'mock! impl Trait for Foo<u32>': mg, st = "<HT: Send + 'static>", 'Foo<u32>'
        if host == 'mock! impl Trait with type': te, ie = "type A: Dec + Clone + 'static;", 'type A = u32;'
        if host == 'mock! impl Trait with type = HT': te, ie, mg, ig, st = "type A: Dec + Clone + 'static;", 'type A = HT;', '<%s>' % W, '<%s>' % W, 'Foo<HT>'
        if host == 'mock! async_trait': attr = '#[async_trait::async_trait] '
        t(pre)
        if path: t('pub mod sub { use super::*;')
        t(attr + '%spub trait Tr%s { %s' % ('' if not un else '', tg, te) if not un else 'pub unsafe trait Tr {'); each(mirror=True); t('}')
        if path: t('} use sub::Tr;')
        t('mock! { pub Foo%s { %s }' % (mg, own))
        t('%s%simpl%s %sTr%s for %s%s { %s' % (attr, un, ig, path, tt, st, w, ie)); each(assoc='HT' if '= HT' in host else 'u32' if 'with type' in host else None); t('}%s }' % more)
    elif h.kind == 'module':
        t('#[automock] %smod inner { use super::*;' % ('pub ' if 'private' not in host else '')); each('pub ', '{}'); t('}')
    else:
        abi = host.split('"')[1]
        t('#[automock] pub mod ffi { use super::*; extern "%s" {' % abi); each('pub '); t('} }')
    return o

def name_of(host, code):
    """The automocked traits are called Tr, hence their mocks MockTr"""
    return code

def module(mid, host, fns):
    """-> [(key or None, text)]"""
    h = HOSTS[host]
    o = [(None, '#[allow(warnings)] pub mod m%d { use mockall::*; use sigp::*; use std::path::{Path, PathBuf};' % mid), (None, 'pub mod up { pub use sigp::*; }' if h.kind in ('module', 'foreign') or 'path::' in host else '')]
    mock = h.mock
    hc = host_code(host, fns)
    if any('pub trait Tr' in x or 'unsafe trait Tr' in x for _, x in hc if x) and not host.startswith('mock!') and not host.endswith('for'):
        o.append((None, 'use MockTr as MockFoo;' if not HOSTS[host].mock.startswith('mock_') else ''))
    for f, x in hc:
        o.append((f.sp.key if f else None, x))
    if h.kind in ('trait', 'inherent'):
        o.append((None, 'type Mock = %s; fn idr(x: &u32) -> &u32 { x }' % mock))
        # a stored return value that cannot be sent makes the mock unsendable, too
        snd = 'is_send::<Mock>(); is_sync::<Mock>(); ' if all(f.ret.send for f in fns) else ''
        dbg = 'is_debug::<Mock>();' if host.startswith('automock') else ''
        o.append((None, 'fn asserts() { %sis_default::<Mock>(); %s }' % (snd, dbg)))
        if h.kind == 'trait' and all(dyn_ok(f) for f in fns) and host != 'automock trait with const':
            o.append((None, 'fn as_dyn(m: &mut Mock) -> &mut dyn %s { m }' % (h.bound or 'Tr')))
    else:
        o.append((None, 'type Mock = (); fn idr(x: &u32) -> &u32 { x }'))
    for f in fns:
        o.append((f.sp.key, f.via()))
        o.append((f.sp.key, f.driver()))
    o.append((None, '}'))
    return o

def dyn_ok(f):
    sp = f.sp
    if sp.qual == 'where Self: Sized': return True
    if 'dyn' not in f.r.tags or f.gs: return False
    if any(a.need & {'selfty'} for a in f.args) or 'selfty' in f.ret.need: return False
    if 'impl' in f.ret.need: return False
    if f.ret.asyn and 'async_trait' not in sp.host: return False
    return True
