#!/usr/bin/env python3
"""Generate the mock "shapes": Rust modules that wrap every kind of mockable
function behind the explorer's `Sut` trait.

usage: gen_shapes.py OUTDIR [--nightly]
Writes OUTDIR/shapes<k>.rs.  Deterministic.
"""
import sys, os

# ---------------------------------------------------------------- argument kinds
class A:
    def __init__(s, ty, expr, dbg, pre="", after=None, cmut=None, generics="", where="", conc=False, st=False, dec="{n}.dec()", wdec=None):
        s.ty, s.expr, s.dbg, s.pre, s.after, s.cmut = ty, expr, dbg, pre, after, cmut
        s.generics, s.where, s.conc, s.st = generics, where, conc, st
        s.dec = dec
        s.wdec = wdec or dec

Q = '"?".to_string()'
ARGS = {
    'u32':   A('u32', '{v} as u32', 'format!("{v}")'),
    'u32r':  A('&u32', '&x{i}', 'format!("{v}")', pre='let x{i} = {v} as u32;'),
    'str':   A('&str', '&x{i}', 'format!("\\"s{v}\\"")', pre='let x{i} = format!("s{{}}", {v});'),
    'string': A('String', 'STRS[{v} as usize].to_string()', 'format!("\\"s{v}\\"")'),
    'mutr':  A('&mut u32', '&mut x{i}', 'format!("{v}")', pre='let mut x{i} = {v} as u32;', after='x{i} as V', cmut='*{n} += 64;'),
    'slice': A('&[u8]', '&x{i}', 'format!("[7, {v}]")', pre='let x{i} = vec![7u8, {v}];'),
    'mslice': A('&mut [u8]', '&mut x{i}', 'format!("[7, {v}]")', pre='let mut x{i} = vec![7u8, {v}];', after='x{i}[1]', cmut='{n}[1] += 64;'),
    'vec':   A('Vec<u8>', 'vec![7u8, {v}]', 'format!("[7, {v}]")'),
    'opt':   A('Option<u32>', 'opt({v})', 'if v == 0 {{ "None".to_string() }} else {{ format!("Some({v})") }}'),
    'optr':  A("Option<&'a u32>", 'if {v} == 0 {{ None }} else {{ Some(&x{i}) }}', 'if v == 0 {{ "None".to_string() }} else {{ format!("Some({v})") }}', pre='let x{i} = {v} as u32;', generics="'a"),
    'trk':   A('Tracked', 'Tracked::new({v}, env)', Q),
    'nd':    A('NonDebug', 'NonDebug({v})', Q),
    'ndr':   A('&NonDebug', '&NonDebug({v})', Q),
    'rc':    A('std::rc::Rc<u32>', 'std::rc::Rc::new({v} as u32)', 'format!("{v}")'),
    'boxdyn': A('Box<dyn DecT>', 'Box::new(DV({v})) as Box<dyn DecT>', Q),
    'dynr':  A('&dyn DecT', '&x{i}', Q, pre='let x{i} = DV({v});'),
    'dynm':  A('&mut dyn DecT', '&mut x{i}', Q, pre='let mut x{i} = DV({v});', after='x{i}.0', cmut='{{ let q = {n}.d(); {n}.s(q + 64); }}'),
    'clos':  A('F', 'move |q: u32| q + w{i}', Q, pre='let w{i} = {v} as u32;', generics='F: Fn(u32) -> u32 + Send + \'static'),
    'closm': A('F', 'move |q: u32| q + w{i}', Q, pre='let w{i} = {v} as u32;', generics='F', where='F: FnMut(u32) -> u32 + Send + \'static', dec=None),
    'lt':    A("&Lt<'a>", '&Lt(&x{i})', 'format!("Lt({v})")', pre='let x{i} = {v} as u32;', generics="'a"),
    'lta':   A("Lt<'a>", 'Lt(&x{i})', 'format!("Lt({v})")', pre='let x{i} = {v} as u32;', generics="'a"),
    'stra':  A("&'a str", '&x{i}', 'format!("\\"s{v}\\"")', pre='let x{i} = format!("s{{}}", {v});', generics="'a"),
    'arr':   A('[u8; 2]', '[7u8, {v}]', 'format!("[7, {v}]")'),
    'tup':   A('(u32, u32)', '({v} as u32, {v} as u32 + 1)', 'format!("({v}, {{}})", v + 1)'),
    'fnp':   A('fn(u32) -> u32', 'fnp({v})', 'String::from(char::from(1u8))'),
    'sstr':  A("&'static str", 'STRS[{v} as usize]', 'format!("\\"s{v}\\"")'),
    # generic method parameter; instantiated by the fn spec
    'T':     A('T', '{mkT}', Q, generics="T: Dec + 'static"),
    'Tdbg':  A('T', '{mkT}', '{dbgT}', generics="T: Dec + std::fmt::Debug + 'static"),
    'Tw':    A('T', '{mkT}', Q, generics='T', where="T: Dec + 'static"),
    'Tr':    A('&T', '&x{i}', Q, pre='let x{i} = {mkT};', generics="T: Dec + 'static"),
    'Tm':    A('&mut T', '&mut x{i}', Q, pre='let mut x{i} = {mkT};', generics="T: Dec + 'static"),
    'U':     A('U', '{v} as u32', Q, generics="U: Dec + 'static"),
    # struct-level parameter, always u32
    'H':     A('HT', '{v} as u32', Q),
    'Hr':    A('&HT', '&x{i}', Q, pre='let x{i} = {v} as u32;'),
    # concretized
    'conc':  A('P', 'DV({v})', Q, generics='P: Conc', conc=True, dec='{n}.get()'),
    'concr': A('&P', '&DV({v})', Q, generics='P: Conc', conc=True, dec='{n}.get()'),
    'concm': A('&mut P', '&mut x{i}', Q, pre='let mut x{i} = DV({v});', after='x{i}.0', cmut='{{ let q = {n}.get(); {n}.put(q + 64); }}', generics='P: Conc', conc=True, dec='{n}.get()'),
    'concs': A('&[P]', '&x{i}', Q, pre='let x{i} = [DV(7), DV({v})];', generics='P: Conc', conc=True, dec='{n}[1].get()'),
}
del ARGS['closm']

# ---------------------------------------------------------------- return kinds
class R:
    def __init__(s, ty, mk, dec, rmod=10, clone=True, cls='Static', dflt=None, wrap='{c}', asyn=False, generics=""):
        s.ty, s.mk, s.dec, s.rmod, s.clone, s.cls, s.dflt, s.wrap, s.asyn, s.generics = ty, mk, dec, rmod, clone, cls, dflt, wrap, asyn, generics

RETS = {
    'unit':  R('()', '()', '{{ let _: () = r; 0 }}', rmod=1, dflt=0),
    'u32':   R('u32', '({v}) as u32', 'r.dec()', dflt=0),
    'string': R('String', 'STRS[({v}) as usize].to_string()', 'r.dec()', dflt=0),
    'opt':   R('Option<u32>', 'opt({v})', 'r.dec()', dflt=0),
    'res':   R('Result<u32, String>', 'res({v})', 'r.dec()'),
    'trk':   R('Tracked', 'Tracked::new({v}, &env)', 'r.dec()', clone=False),
    'sstr':  R("&'static str", 'STRS[({v}) as usize]', 'r.dec()', dflt=0),
    'box':   R('Box<dyn DecT>', '(Box::new(DV({v})) as Box<dyn DecT>)', 'r.d()', clone=False),
    'impl':  R('impl DecT', '(Box::new(DV({v})) as Box<dyn DecT>)', 'r.d()', clone=False),
    'impls': R('impl DecT + Send', '(Box::new(DV({v})) as Box<dyn DecT + Send>)', 'r.d()', clone=False),
    'iter':  R('impl Iterator<Item = u32>', '(Box::new(vec![({v}) as u32, 99].into_iter()) as Box<dyn Iterator<Item = u32>>)', '{{ let q = r.collect::<Vec<_>>(); assert_eq!(q.len(), 2); q[0].dec() }}', clone=False),
    'fut':   R('impl std::future::Future<Output = u32> + Send', '{{ let q = ({v}) as u32; Box::pin(async move {{ q }}) as std::pin::Pin<Box<dyn std::future::Future<Output = u32> + Send>> }}', 'r.dec()', clone=False, wrap='block_on({c})'),
    'async': R('u32', '({v}) as u32', 'r.dec()', dflt=0, wrap='block_on({c})', asyn=True),
    'T':     R('T', '{mkT}', 'r.dec()', generics="T: Dec + Clone + 'static"),
    'H':     R('HT', '({v}) as u32', 'r.dec()', dflt=0),
    'u32r':  R('&u32', '({v}) as u32', 'r.dec()', cls='Ref', dflt=0),
    'strr':  R('&str', 'STRS[({v}) as usize].to_string()', 'r.dec()', cls='Ref', dflt=0),
    'slicer': R('&[u8]', 'vec![7u8, {v}]', 'r.dec()', cls='Ref', dflt=0),
    'pathr': R('&Path', 'PathBuf::from(STRS[({v}) as usize])', 'r.dec()', cls='Ref', dflt=0),
    'osr':   R('&OsStr', 'OsString::from(STRS[({v}) as usize])', 'r.dec()', cls='Ref', dflt=0),
    'cstrr': R('&CStr', 'CString::new(STRS[({v}) as usize]).unwrap()', 'r.dec()', cls='Ref', dflt=0),
    'dynr':  R('&dyn DecT', '(Box::new(DV({v})) as Box<dyn DecT>)', 'r.d()', cls='Ref'),
    'optT':  R('&Option<u32>', 'opt({v})', 'r.dec()', cls='Ref', dflt=0),
    'Tr':    R('&T', '{mkT}', 'r.dec()', cls='Ref', generics="T: Dec + 'static"),
    'Hr':    R('&HT', '({v}) as u32', 'r.dec()', cls='Ref', dflt=0),
    'u32m':  R('&mut u32', '({v}) as u32', 'r.dec()', cls='RefMut', dflt=0),
    'strm':  R('&mut str', 'STRS[({v}) as usize].to_string()', 'r.dec()', cls='RefMut', dflt=0),
    'slicem': R('&mut [u8]', 'vec![7u8, {v}]', 'r.dec()', cls='RefMut', dflt=0),
    'dynm':  R('&mut dyn DecT', '(Box::new(DV({v})) as Box<dyn DecT>)', 'r.d()', cls='RefMut'),
    'Tm':    R('&mut T', '{mkT}', 'r.dec()', cls='RefMut', generics="T: Dec + SetV + 'static"),
    'Hm':    R('&mut HT', '({v}) as u32', 'r.dec()', cls='RefMut', dflt=0),
}

MKT = {'SameA': 'SameA::new({v})', 'SameB': 'SameB::new({v})', 'u32': '({v}) as u32', 'String': 'STRS[({v}) as usize].to_string()'}
DBGT = {'u32': 'format!("{v}")', 'String': 'format!("\\"s{v}\\"")'}

class F:
    """One mockable function"""
    def __init__(s, name, recv, args, ret, inst=None, extra=""):
        s.name, s.recv, s.args, s.ret, s.inst, s.extra = name, recv, args, ret, inst, extra
        s.A = [ARGS[a] for a in args]
        s.R = RETS[ret]
    @property
    def static(s): return s.recv is None
    def generics(s):
        g = []
        for a in s.A + [s.R]:
            for x in ([a.generics] if a.generics else []):
                nm = x.split(':')[0].strip()
                old = [y for y in g if y.split(':')[0].strip() == nm]
                if not old: g.append(x)
                elif len(x) > len(old[0]): g[g.index(old[0])] = x
        return sorted(g, key=lambda x: not x.startswith("'"))
    def tparams(s): return [x.split(':')[0].strip() for x in s.generics() if not x.startswith("'")]
    def sig(s, vis=""):
        g = s.generics()
        gs = '<' + ', '.join(g) + '>' if g else ''
        a = ([s.recv] if s.recv else []) + ['a%d: %s' % (i, x.ty) for i, x in enumerate(s.A)]
        w = [x.where for x in s.A if x.where]
        ret = '' if s.ret == 'unit' else ' -> ' + s.R.ty
        at = '#[mockall::concretize]\n' if any(x.conc for x in s.A) else ''
        return '%s%s%s%sfn %s%s(%s)%s%s' % (at, s.extra, vis, 'async ' if s.R.asyn else '', s.name, gs, ', '.join(a), ret,
                                     ' where ' + ', '.join(dict.fromkeys(w)) if w else '')

def dom(n): return {0: 1, 1: 3}.get(n, 2)

def sub(t, **k):
    return t.format(**k)

class Inst:
    """An instance of a function in a host: how to expect and call it"""
    def __init__(s, f, group, expect, callee, fname, cname, T=None, consumes=False, sync=True):
        s.f, s.group, s.expect, s.callee, s.fname, s.cname, s.T, s.sync = f, group, expect, callee, fname, cname, T, sync
    def mkT(s, v): return MKT[s.T].format(v=v) if s.T else ''

    def apply_one(s, e):
        """match arm expression applying one builder op to `e`"""
        f = s.f
        n = len(f.A)
        names = ['a%d' % i for i in range(n)]
        d = dom(n)
        decs = ', '.join(sub(a.dec, n=x) for a, x in zip(f.A, names))
        st_needed = False
        conc = any(a.conc for a in f.A)
        o = []
        o.append('match op {')
        o.append('Op::Times(t) => apply_times!(%s, t),' % e)
        o.append('Op::Seq(q) => %s.in_sequence(&mut seqs.0[*q]),' % e)
        if n and not conc:
            o.append('Op::Match(MOp::With(p)) => %s.with(%s),' % (e, ', '.join('SetPred(p[%d])' % i for i in range(n))))
        for op, st in (('Withf', 'false'), ('WithfSt', 'true')):
            meth = 'withf' if st == 'false' else 'withf_st'
            o.append('Op::Match(MOp::%s(t, p)) => { let (t, p, env) = (*t, *p, env.clone()); %s.%s(move |%s| env.matcher(id, t, p, %d, &[%s], %s)) }'
                     % (op, e, meth, ', '.join(names), d, decs, st))
        R_ = f.R
        mk = lambda v: sub(R_.mk, v=v, mkT=s.mkT(v))
        muts = ' '.join(sub(a.cmut, n=x) for a, x in zip(f.A, names) if a.cmut)
        pn = ', '.join(names)
        md = R_.rmod
        env = 'let env = env.clone();'
        if R_.cls == 'Static':
            if R_.clone:
                o.append('Op::Ret(ROp::Const(v)) => %s.return_const(%s),' % (e, mk('*v')))
                o.append('Op::Ret(ROp::ConstSt(v)) => %s.return_const_st(%s),' % (e, mk('*v')))
            for op, meth, st in (('Mut', 'returning', 'false'), ('MutSt', 'returning_st', 'true')):
                extra = 'let _rc = std::rc::Rc::new(0u8);' if st == 'true' else ''
                use = 'let _ = &_rc;' if st == 'true' else ''
                o.append('Op::Ret(ROp::%s(b, p)) => { let (b, p, mut k, env) = (*b, *p, 0u8, env.clone()); %s %s.%s(move |%s| { %s let q = k; k = next_inv(k); env.ret(id, &[%s], p, q, %s); %s %s }) }'
                         % (op, extra, e, meth, pn, use, decs, st, muts, mk('(b + q) %% %d' % md)))
            for op, meth, st in (('Once', 'return_once', 'false'), ('OnceSt', 'return_once_st', 'true')):
                extra = 'let _rc = std::rc::Rc::new(0u8);' if st == 'true' else ''
                use = 'drop(_rc);' if st == 'true' else ''
                o.append('Op::Ret(ROp::%s(b, p)) => { let (b, p, env, tok) = (*b, *p, env.clone(), Tracked::new(0, env)); %s %s.%s(move |%s| { %s drop(tok); env.ret(id, &[%s], p, 0, %s); %s %s }) }'
                         % (op, extra, e, meth, pn, use, decs, st, muts, mk('b %% %d' % md)))
        elif R_.cls == 'Ref':
            o.append('Op::Ret(ROp::Const(v)) => %s.return_const(%s),' % (e, mk('*v')))
        else:
            o.append('Op::Ret(ROp::Var(v)) => %s.return_var(%s),' % (e, mk('*v')))
            for op, meth, st in (('Mut', 'returning', 'false'), ('MutSt', 'returning_st', 'true')):
                extra = 'let _rc = std::rc::Rc::new(0u8);' if st == 'true' else ''
                use = 'let _ = &_rc;' if st == 'true' else ''
                o.append('Op::Ret(ROp::%s(b, p)) => { let (b, p, mut k, env) = (*b, *p, 0u8, env.clone()); %s %s.%s(move |%s| { %s let q = k; k = next_inv(k); env.ret(id, &[%s], p, q, %s); %s %s }) }'
                         % (op, extra, e, meth, pn, use, decs, st, muts, mk('(b + q) %% %d' % md)))
        o.append('_ => unreachable!("unsupported builder"),')
        o.append('}')
        return '\n'.join(o)

    def expect_body(s):
        """instance method: `e` is &mut Expectation"""
        return 'let e = %s;\nfor op in ops { %s; }' % (s.expect, s.apply_one('e'))

    def ctx_body(s, ctxexpr):
        # A guard: builder calls go to the guard, or chain on what they return.
        # `e` only aliases the guard's own expectation and the guard is not
        # touched while it is in use.
        return ('''mk_ctx(%s, |c, id, ops, on_guard, env, seqs| {
    let mut g = c.%s;
    if on_guard { for op in ops { %s; } }
    else {
        let Some((op, rest)) = ops.split_first() else { return };
        let e = %s;
        for op in rest { %s; }
    }
}, |c| c.checkpoint())''' % (ctxexpr, s.expect, s.apply_one('g'), s.apply_one('g'), s.apply_one('e')))

    def call_body(s):
        f = s.f
        o = ['#[allow(unused)] let env2 = env;']
        for i, a in enumerate(f.A):
            if a.pre: o.append(sub(a.pre, i=i, v='args[%d]' % i, mkT=s.mkT('args[%d]' % i)))
        ex = ', '.join(sub(a.expr, i=i, v='args[%d]' % i, mkT=s.mkT('args[%d]' % i)) for i, a in enumerate(f.A))
        o.append('#[allow(unused_mut, clippy::let_unit_value)] let mut r = %s;' % sub(f.R.wrap, c='unsafe { %s(%s) }' % (s.callee, ex)))
        addr = '0'
        if f.R.cls != 'Static':
            addr = '(&*r) as *const _ as *const u8 as usize'
            o.append('let addr = %s;' % addr)
        else:
            o.append('let addr = 0usize;')
        o.append('let val: V = { #[allow(unused)] let _q = 0; %s };' % f.R.dec.format())
        if f.R.cls == 'RefMut':
            o.append('if let Some(n) = set { r.setv(n); }')
        af = ', '.join('(%d, %s)' % (i, sub(a.after, i=i)) for i, a in enumerate(f.A) if a.after)
        o.append('CallRet { val, after: vec![%s], addr }' % af)
        return '\n'.join(o)

    def meta(s):
        f = s.f
        n = len(f.A)
        dbg = ', '.join('|v| { let _ = v; %s }' % sub(a.dbg, v='{v}', dbgT=DBGT.get(s.T, '')) for a in f.A)
        muts = ', '.join(str(i) for i, a in enumerate(f.A) if a.after)
        conc = any(a.conc for a in f.A)
        d = f.R.dflt
        if f.R.ty in ('T', '&T', '&mut T'): d = 0
        return ('FnMeta { name: "%s", cname: "%s", group: %d, arity: %d, dom: %d, dbg: { static D: &[fn(V) -> String] = &[%s]; D }, class: RetClass::%s, rmod: %d, clone: %s, with: %s, consumes: false, sync: %s, dflt: %s, mutargs: &[%s], setdef: %s }'
                % (s.fname, s.cname, s.group, n, dom(n), dbg, f.R.cls, f.R.rmod, 'true' if f.R.clone else 'false',
                   'true' if n and not conc else 'false', 'true' if s.sync else 'false', 'None' if d is None else 'Some(%d)' % d, muts, 'false' if f.ret in ('strm', 'slicem') else 'true'))

class Host:
    def __init__(s, name, code):
        s.name, s.code = name, code
        s.objs = []      # (type, ctor)
        s.groups = []    # ('Object', objidx) / ('Ctx', instidx) / ('CkptOnly', expr)
        s.insts = []
        s.extra_ckpt = []
    def add_obj(s, ty):
        s.objs.append(ty)
        s.groups.append(('Object', len(s.objs) - 1))
        return len(s.groups) - 1
    def add_methods(s, group, fns, struct, via=None):
        oi = s.groups[group][1]
        for f in fns:
            for T in (f.inst or [None]):
                tps = f.tparams()
                explicit = bool(tps) and not any(a.conc for a in f.A) and not any('Fn' in a.generics for a in f.A)
                tf = ''
                if explicit:
                    tf = '::<%s>' % ', '.join((T if p == 'T' else 'u32') for p in tps)
                m = 'o%d.as_%s().unwrap()' % (oi, 'mut' if f.recv == '&mut self' else 'ref')
                if via: callee = None
                callee = '%s.%s%s' % (m, f.name, tf)
                s.insts.append(Inst(f, group, 'o%d.as_mut().unwrap().expect_%s%s()' % (oi, f.name, tf), callee,
                                    '%s::%s' % (struct, f.name), '%s::%s' % (struct, f.name), T))
    def add_static(s, f, path, struct, turbo_struct='', fname=None, cname=None):
        for k, T in enumerate(f.inst or [None]):
            tps = f.tparams()
            explicit = bool(tps) and not any(a.conc for a in f.A) and not any('Fn' in a.generics for a in f.A)
            tf = '::<%s>' % ', '.join((T if p == 'T' else 'u32') for p in tps) if explicit else ''
            if k == 0:
                s.groups.append(['Ctx', [], '%s::%s_context()' % (path, f.name)])
            gi = len(s.groups) - 1
            ii = len(s.insts)
            s.groups[gi][1].append(ii)
            fnm = fname or ('%s::%s' % (struct, f.name) if struct else f.name)
            s.insts.append(Inst(f, gi, 'expect%s()' % tf, '%s::%s%s' % (path, f.name, tf), fnm, cname or fnm, T))
    def emit(s, k):
        o = ['pub mod %s {' % s.name, '#![allow(unused, non_snake_case, clippy::all)]', 'use sutlib::*; use mockall::*;',
             'use std::path::{Path, PathBuf}; use std::ffi::{OsStr, OsString, CStr, CString};']
        o.append(s.code)
        o.append('pub struct S { seqs: Seqs, %s %s }' % (
            ' '.join('o%d: Option<%s>,' % (i, t) for i, t in enumerate(s.objs)),
            ' '.join('c%d: Vec<Box<dyn CtxObj>>,' % gi for gi, g in enumerate(s.groups) if g[0] == 'Ctx')))
        ds = 'let S { seqs, %s %s } = self;' % (' '.join('o%d,' % i for i in range(len(s.objs))),
                                                ' '.join('c%d,' % gi for gi, g in enumerate(s.groups) if g[0] == 'Ctx'))
        # split into functions to keep them small
        for gi, g in enumerate(s.groups):
            if g[0] != 'Ctx': continue
            o.append('fn mkc%d() -> Vec<Box<dyn CtxObj>> { vec![' % gi)
            for j, ii in enumerate(g[1]):
                # only the first element owns a context which matters; others
                # are further handles for other type instantiations
                o.append(s.insts[ii].ctx_body(g[2]) + ',')
            o.append('] }')
        o.append('impl S {')
        for ii, it in enumerate(s.insts):
            if not it.f.static:
                o.append('fn x%d(&mut self, id: u32, ops: &[Op], env: &Arc<Env>) { %s %s }' % (ii, ds, it.expect_body()))
            o.append('fn k%d(&mut self, args: &[V], set: Option<V>, env: &Arc<Env>) -> CallRet { %s %s }' % (ii, ds, it.call_body()))
        o.append('}')
        o.append('impl Sut for S {')
        o.append('fn create(&mut self, g: usize) { match g {')
        for gi, g in enumerate(s.groups):
            if g[0] == 'Object': o.append('%d => self.o%d = Some(<%s>::new()),' % (gi, g[1], s.objs[g[1]]))
            elif g[0] == 'Ctx': o.append('%d => self.c%d = mkc%d(),' % (gi, gi, gi))
        o.append('_ => unreachable!() } }')
        o.append('fn drop_group(&mut self, g: usize) { match g {')
        for gi, g in enumerate(s.groups):
            if g[0] == 'Object': o.append('%d => drop(self.o%d.take()),' % (gi, g[1]))
            elif g[0] == 'Ctx': o.append('%d => drop(std::mem::take(&mut self.c%d)),' % (gi, gi))
        o.append('_ => unreachable!() } }')
        o.append('fn new_seq(&mut self, q: usize) { self.seqs.renew(q) }')
        o.append('fn ckpt(&mut self, g: usize) { match g {')
        for gi, g in enumerate(s.groups):
            if g[0] == 'Object': o.append('%d => self.o%d.as_mut().unwrap().checkpoint(),' % (gi, g[1]))
            elif g[0] == 'Ctx': o.append('%d => self.c%d[0].ckpt(),' % (gi, gi))
            else: o.append('%d => %s,' % (gi, g[2]))
        o.append('_ => unreachable!() } }')
        o.append('fn expect(&mut self, f: usize, id: u32, ops: &[Op], on_guard: bool, env: &Arc<Env>) { match f {')
        for ii, it in enumerate(s.insts):
            if it.f.static:
                j = s.groups[it.group][1].index(ii)
                o.append('%d => self.c%d[%d].expect(id, ops, on_guard, env, &mut self.seqs),' % (ii, it.group, j))
            else:
                o.append('%d => self.x%d(id, ops, env),' % (ii, ii))
        o.append('_ => unreachable!() } }')
        o.append('fn call(&mut self, f: usize, args: &[V], set: Option<V>, env: &Arc<Env>) -> CallRet { match f {')
        for ii in range(len(s.insts)): o.append('%d => self.k%d(args, set, env),' % (ii, ii))
        o.append('_ => unreachable!() } }')
        o.append('}')
        o.append('pub fn shape() -> Shape { Shape { make: || Box::new(S { seqs: Default::default(), %s %s }), meta: Meta { name: "%s", fns: vec![' % (
            ' '.join('o%d: None,' % i for i in range(len(s.objs))),
            ' '.join('c%d: vec![],' % gi for gi, g in enumerate(s.groups) if g[0] == 'Ctx'), s.name))
        for it in s.insts: o.append(it.meta() + ',')
        o.append('], groups: vec![')
        for gi, g in enumerate(s.groups):
            if g[0] == 'CkptOnly':
                fs = g[1]
            else:
                fs = [ii for ii, it in enumerate(s.insts) if it.group == gi]
            o.append('GMeta { kind: GKind::%s, fns: &[%s] },' % (g[0], ', '.join(map(str, fs))))
        o.append('] } } }')
        o.append('}')
        return '\n'.join(o)

# ---------------------------------------------------------------- hosts
S_, M_ = '&self', '&mut self'
US = ['u32', 'String']
CORE = [
    F('c0', S_, [], 'u32'),
    F('c1', S_, ['u32'], 'u32'),
    F('c2', S_, ['str', 'u32'], 'u32r'),
    F('c3', M_, ['u32', 'mutr'], 'u32m'),
    F('c4', M_, ['u32r', 'string'], 'string'),
    F('c5', S_, ['T', 'u32'], 'u32', US),
]
CORE_CONC = [F('c6', S_, ['conc', 'u32'], 'u32')]
ARGM = [
    F('a0', S_, ['slice', 'vec'], 'u32'),
    F('a1', S_, ['opt', 'optr'], 'u32'),
    F('a2', S_, ['trk', 'u32', 'trk'], 'u32'),
    F('a3', S_, ['nd', 'ndr', 'u32'], 'u32'),
    F('a4', S_, ['boxdyn', 'dynr'], 'u32'),
    F('a5', S_, ['dynm', 'mslice'], 'u32'),
    F('a6', S_, ['clos', 'u32'], 'u32'),
    F('a7', S_, ['lt', 'u32'], 'u32'),
    F('a8', S_, ['u32', 'lta'], 'u32'),
    F('a9', S_, ['stra', 'sstr', 'arr'], 'u32'),
    F('a10', S_, ['tup', 'fnp'], 'u32'),
    F('a11', S_, ['u32', 'u32', 'u32', 'u32'], 'u32'),
    F('a12', S_, ['rc', 'u32'], 'u32'),
    F('a13', S_, ['string', 'T', 'u32'], 'unit', US),
    F('a14', S_, ['Tr', 'u32', 'U'], 'u32', US),
    F('a15', S_, ['Tdbg', 'u32'], 'u32', US),
    F('a16', S_, ['Tw', 'str'], 'u32', US),
    F('a17', M_, ['Tm', 'u32'], 'u32', US),
    F('a18', S_, ['u32', 'concr'], 'u32'),
    F('a19', S_, ['concm', 'u32'], 'u32'),
    F('a20', S_, ['concs', 'str'], 'u32'),
]
RETM = [
    F('r0', S_, ['u32'], 'unit'),
    F('r1', S_, ['u32'], 'opt'),
    F('r2', S_, ['u32'], 'res'),
    F('r3', S_, ['u32'], 'trk'),
    F('r4', S_, ['u32'], 'sstr'),
    F('r5', S_, ['u32'], 'box'),
    F('r8', S_, ['T'], 'T', US),
    F('r9', S_, ['u32'], 'strr'),
    F('r10', S_, ['u32'], 'slicer'),
    F('r11', S_, [], 'pathr'),
    F('r12', S_, ['u32'], 'osr'),
    F('r13', S_, ['u32'], 'cstrr'),
    F('r14', S_, ['u32'], 'dynr'),
    F('r15', S_, ['u32'], 'optT'),
    F('r17', M_, ['u32'], 'strm'),
    F('r18', M_, ['u32'], 'slicem'),
    F('r19', M_, ['u32'], 'dynm'),
    F('r21', M_, ['mutr', 'str'], 'unit'),
    F('r22', M_, [], 'u32m'),
    F('r23', S_, [], 'T', US),
    F('r24', S_, ['u32'], 'Tr', US),
    F('r25', M_, ['u32'], 'Tm', US),
]
IMPLM = [
    F('i0', S_, ['u32'], 'impl'),
    F('i1', S_, ['u32'], 'iter'),
    F('i2', S_, ['u32'], 'fut'),
    F('i3', S_, ['u32', 'str'], 'impls'),
]
ASYNCM = [
    F('s0', S_, ['u32'], 'async'),
    F('s1', M_, ['u32', 'string'], 'async'),
]
HM = [
    F('h0', S_, ['H'], 'u32'),
    F('h1', S_, ['Hr', 'u32'], 'H'),
    F('h2', S_, ['u32'], 'Hr'),
    F('h3', M_, ['H'], 'Hm'),
    F('h4', S_, ['H', 'T'], 'u32', US),
]
SCORE = [
    F('f0', None, [], 'u32'),
    F('f1', None, ['u32'], 'u32'),
    F('f2', None, ['str', 'u32'], 'string'),
]
SARGS = [
    F('g0', None, ['mutr', 'u32r'], 'unit'),
    F('g1', None, ['T', 'u32'], 'u32', US),
    F('g2', None, ['u32'], 'T', US),
    F('g3', None, ['clos', 'u32'], 'u32'),
    F('g4', None, ['conc', 'u32'], 'u32'),
    F('g5', None, ['lta', 'slice'], 'u32'),
    F('g6', None, ['trk', 'boxdyn'], 'trk'),
    F('g7', None, ['u32'], 'sstr'),
    F('g8', None, ['Tw', 'Tr'], 'opt', US),
]

def body(f): return ' { unimplemented!() }'

def h_automock_trait(name, ms, ss, trait='Foo', attr='', gen='', inst=''):
    code = attr + '#[automock]\npub trait %s%s {\n' % (trait, gen)
    code += ''.join('%s;\n' % f.sig() for f in ms + ss) + '}\n'
    h = Host(name, code)
    M = 'Mock' + trait + inst
    if ms:
        g = h.add_obj(M); h.add_methods(g, ms, 'Mock' + trait)
    for f in ss: h.add_static(f, 'Mock' + trait + (('::' + inst) if inst else ''), 'Mock' + trait)
    return h

def h_automock_impl(name, ms, ss, gen='', inst='', st='Foo'):
    code = 'pub struct %s%s %s\n#[automock]\nimpl%s %s%s {\n' % (st, gen, '(std::marker::PhantomData<HT>);' if gen else ';', gen, st, '<HT>' if gen else '')
    code += ''.join('%s%s\n' % (f.sig('pub '), body(f)) for f in ms + ss) + '}\n'
    h = Host(name, code)
    M = 'Mock' + st + inst
    if ms:
        g = h.add_obj(M); h.add_methods(g, ms, 'Mock' + st)
    for f in ss: h.add_static(f, 'Mock' + st + (('::' + inst) if inst else ''), 'Mock' + st)
    return h

def h_mock_inherent(name, ms, ss, gen='', inst='', st='Foo'):
    code = 'mock! {\npub %s%s {\n' % (st, gen)
    code += ''.join('%s;\n' % f.sig('pub ') for f in ms + ss) + '}\n}\n'
    h = Host(name, code)
    M = 'Mock' + st + inst
    if ms:
        g = h.add_obj(M); h.add_methods(g, ms, 'Mock' + st)
    for f in ss: h.add_static(f, 'Mock' + st + (('::' + inst) if inst else ''), 'Mock' + st)
    return h

def h_mock_trait(name, ms, ss, gen='', inst='', tgen='', attr='', objs=1):
    code = attr + 'pub trait Tr%s {\n' % tgen + ''.join('%s;\n' % f.sig() for f in ms + ss) + '}\n'
    code += 'mock! {\npub Foo%s {}\n%simpl%s Tr%s for Foo%s {\n' % (gen, attr, gen, '<HT>' if tgen else '', '<HT>' if gen else '')
    code += ''.join('%s;\n' % f.sig() for f in ms + ss) + '}\n}\n'
    h = Host(name, code)
    M = 'MockFoo' + inst
    if ms:
        g = h.add_obj(M); h.add_methods(g, ms, 'MockFoo')
    for f in ss: h.add_static(f, 'MockFoo' + (('::' + inst) if inst else ''), 'MockFoo')
    return h

def h_module(name, fs, ext=False):
    if ext:
        code = '#[automock]\npub mod ffi {\nextern "C" {\n' + ''.join('%s;\n' % f.sig('pub ') for f in fs) + '}\n}\n'
        h = Host(name, code); path = 'mock_ffi'
    else:
        code = '#[automock]\npub mod inner {\nuse sutlib::*;\n' + ''.join('%s%s\n' % (f.sig('pub '), body(f)) for f in fs) + '}\n'
        h = Host(name, code); path = 'mock_inner'
    for f in fs: h.add_static(f, path, None, fname=f.name, cname='%s::%s' % (path, f.name))
    h.groups.append(['CkptOnly', list(range(len(h.insts))), '%s::checkpoint()' % path])
    if ext: h.insts_unsafe = True
    return h

def composite():
    hs = []
    u = F('x', S_, ['u32'], 'u32')
    def f(n, recv=S_, args=('u32',), ret='u32', inst=None): return F(n, recv, list(args), ret, inst)
    # one struct with inherent methods, two trait impls, statics; two objects
    inh = [f('in0'), f('in1', args=('T',), inst=US), f('in2', M_, (), 'u32m'), f('in3', S_, (), 'u32r')]
    ta = [f('ta0'), f('ta1', M_, ('T', 'u32'), inst=US)]
    tb = [f('tb0', S_, ('u32',)), f('tb1', S_, (), 'strr')]
    s0, s1, s2 = f('is0', None), f('ts0', None), f('is1', None, ('T',), inst=US)
    code = 'pub trait TA { %s; }\n' % '; '.join(x.sig() for x in ta + [s1])
    code += 'pub trait TB<X> { %s; }\n' % '; '.join(x.sig() for x in tb)
    code += 'mock! { pub Duo { %s; }\n' % '; '.join(x.sig('pub ') for x in inh + [s0, s2])
    code += 'impl TA for Duo { %s; }\n impl TB<u32> for Duo { %s; } }\n' % ('; '.join(x.sig() for x in ta + [s1]), '; '.join(x.sig() for x in tb))
    h = Host('duo', code)
    a = h.add_obj('MockDuo'); b = h.add_obj('MockDuo')
    h.add_methods(a, inh + ta + tb, 'MockDuo')
    h.add_methods(b, inh[:2] + ta[:1] + tb[:1], 'MockDuo')
    for x in (s0, s1, s2): h.add_static(x, 'MockDuo', 'MockDuo')
    hs.append(h)
    # specific impls of one trait on one generic struct
    m = f('bar')
    code = 'pub trait Bar { %s; }\n' % m.sig()
    code += "mock! { pub Spec<X: 'static> { %s; }\nimpl Bar for Spec<u32> { %s; }\nimpl Bar for Spec<String> { %s; } }\n" % (f('own').sig('pub '), m.sig(), m.sig())
    h = Host('spec', code)
    a = h.add_obj('MockSpec<u32>'); b = h.add_obj('MockSpec<String>')
    h.add_methods(a, [m, f('own')], 'MockSpec'); h.add_methods(b, [m, f('own')], 'MockSpec')
    hs.append(h)
    # two traits with the same method names; two objects of a generic trait
    code = '#[automock] pub trait Ia { %s; %s; }\n#[automock] pub trait Ib { %s; %s; }\n' % ((u.sig(), f('st', None).sig()) * 2)
    code += "#[automock] pub trait Ig<X: 'static> { %s; }\n" % f('gm').sig()
    h = Host('iso', code)
    for M in ('Ia', 'Ib'):
        g = h.add_obj('Mock' + M); h.add_methods(g, [u], 'Mock' + M)
    for T in US:
        g = h.add_obj('MockIg<%s>' % T); h.add_methods(g, [f('gm')], 'MockIg')
    for M in ('Ia', 'Ib'): h.add_static(f('st', None), 'Mock' + M, 'Mock' + M)
    hs.append(h)
    # two modules with equal function names, one of them nested
    code = '#[automock] pub mod ma { %s %s }\n' % (u.__class__('f', None, ['u32'], 'u32').sig('pub ') + body(u), F('g', None, [], 'u32').sig('pub ') + body(u))
    code += '#[automock] pub mod mb { %s }\n' % (F('f', None, ['u32'], 'u32').sig('pub ') + body(u))
    h = Host('mods', code)
    for p, fs in (('mock_ma', [F('f', None, ['u32'], 'u32'), F('g', None, [], 'u32')]), ('mock_mb', [F('f', None, ['u32'], 'u32')])):
        i0 = len(h.insts)
        for x in fs: h.add_static(x, p, None, fname=x.name, cname='%s::%s' % (p, x.name))
        h.groups.append(['CkptOnly', list(range(i0, len(h.insts))), '%s::checkpoint()' % p])
    hs.append(h)
    # generic struct with static methods, instantiated twice: one context type each, one store
    return hs

def build():
    groups = [[] for _ in range(7)]
    # 0/1: automock trait with everything
    nongen_ret = RETM
    groups[0].append(h_automock_trait('at_args', ARGM[:11], []))
    groups[1].append(h_automock_trait('at_args2', ARGM[11:], []))
    groups[2].append(h_automock_trait('at_ret', RETM[:12], []))
    groups[3].append(h_automock_trait('at_ret2', RETM[12:] + IMPLM, []))
    groups[4].append(h_automock_trait('at', CORE + CORE_CONC, SCORE + SARGS))
    groups[5].append(h_automock_impl('ai', CORE + CORE_CONC, SCORE + SARGS[:3]))
    groups[5].append(h_mock_inherent('mi', CORE[:4] + CORE_CONC + ASYNCM + IMPLM[:3], SCORE[:2] + SARGS[5:6]))
    groups[0].append(h_mock_trait('mt', CORE, SCORE[:2] + SARGS[1:3]))
    groups[6].append(h_mock_inherent('gi', HM, [F('hs0', None, ['H'], 'u32'), F('hs1', None, ['H', 'T'], 'u32', US)], gen="<HT: Clone + Default + 'static>", inst='<u32>'))
    groups[6].append(h_automock_trait('gt', HM[:4], [F('hs0', None, ['H'], 'H')], gen="<HT: Clone + Default + 'static>", inst='<u32>'))
    groups[1].append(h_mock_trait('gmt', HM[:4], [], gen="<HT: Clone + Default + 'static>", inst='<u32>', tgen="<HT: Clone + Default + 'static>"))
    groups[6].append(h_automock_impl('gai', HM[:3], [F('hs0', None, ['u32'], 'u32')], gen="<HT: Clone + Default + 'static>", inst='<u32>'))
    groups[2].append(h_module('md', SCORE + SARGS[:3] + SARGS[5:6]))
    groups[3].append(h_module('ex', [F('vp_ext0', None, [], 'u32'), F('vp_ext1', None, ['u32', 'mutr'], 'u32')], ext=True))
    # instantiated with different types that have the same path
    groups[3].append(h_automock_trait('same', [F('sm0', S_, ['T'], 'u32', ['SameA', 'SameB'])], [F('ss0', None, ['T'], 'u32', ['SameA', 'SameB'])]))
    c = composite()
    groups[6].append(c[0]); groups[5].append(c[1]); groups[3].append(c[2]); groups[2].append(c[3])
    return groups

def main():
    out = sys.argv[1]
    os.makedirs(out, exist_ok=True)
    for k, hs in enumerate(build()):
        t = '\n'.join(h.emit(k) for h in hs)
        t += '\npub fn shapes() -> Vec<engine::Shape> { vec![%s] }\n' % ', '.join('%s::shape()' % h.name for h in hs)
        p = os.path.join(out, 'shapes%d.rs' % k)
        if not os.path.exists(p) or open(p).read() != t:
            open(p, 'w').write(t)

main()
