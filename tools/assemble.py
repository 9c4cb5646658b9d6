#!/usr/bin/env python3
"""Assembles the Verus crate from the extracted units (units.json), the contracts and the theory."""
import json, os, re, glob

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODULES = [('crypto', ['hex', 'hash', 'b58', 'c32']), ('', ['clarity', 'transaction', 'wallet'])]


class Contract:
    def __init__(self, key, file):
        self.key, self.file = key, file
        self.spec, self.loops, self.at = '', {}, {}
        self.ret, self.retty, self.attrs, self.name, self.wrap = 'ret', None, [], None, None
        self.trusted, self.props, self.via, self.args, self.generics, self.nloops, self.subs, self.dropped, self.renamed = None, [], [], None, None, None, [], (), {}
        self.where = ''
        self.free = False


def parse_contracts(paths):
    """-> (contracts {key: Contract}, raws [(module, props, text)])"""
    cs, raws = {}, []
    for path in paths:
        text = open(path).read()
        # templates: @for X in a b c ... @end
        def expand(t):
            def rep(m):
                vars_, vals, body = m.group(1).split(','), m.group(2).split(), m.group(3)
                out = []
                for v in vals:
                    parts = v.split('|')
                    b = body
                    for n, p in zip(vars_, parts):
                        b = b.replace('$' + n, p.replace('~', ' '))
                    out.append(b)
                return '\n'.join(out)
            return re.sub(r'(?ms)^@for ([\w,]+) in (.*?)\n(.*?)^@end\s*?$', rep, t)
        text = expand(text)
        cur, sink, props, via = None, None, [], []
        buf = []
        def flush():
            nonlocal buf
            if sink is not None:
                sink('\n'.join(buf) + '\n')
            buf = []
        for line in text.split('\n'):
            if line.startswith('@') :
                flush()
                sink = None
                d, _, arg = line[1:].partition(' ')
                arg = arg.strip()
                if d == 'props':
                    if cur is None or cur == 'file':
                        props = arg.split()
                    else:
                        cur.props = arg.split()
                elif d == 'default':
                    cur = None
                    props = arg.split()
                elif d == 'via':
                    cur.via = arg.split()
                elif d == 'fn':
                    if arg in cs:
                        raise SystemExit(f'duplicate contract {arg}')
                    cur = Contract(arg, path)
                    cur.props = list(props)
                    cs[arg] = cur
                elif d == 'spec':
                    def sink(t, c=cur): c.spec += t
                elif d == 'loop':
                    def sink(t, c=cur, n=int(arg)): c.loops[n] = c.loops.get(n, '') + t
                elif d == 'at':
                    p = arg.split()
                    k = (p[0], int(p[1]) if len(p) > 1 else 0)
                    def sink(t, c=cur, k=k): c.at[k] = c.at.get(k, '') + t
                elif d == 'ret': cur.ret = arg
                elif d == 'retty': cur.retty = arg
                elif d == 'attr': cur.attrs.append(arg)
                elif d == 'name': cur.name = arg
                elif d == 'wrap': cur.wrap = arg
                elif d == 'trusted': cur.trusted = arg
                elif d == 'args': cur.args = arg
                elif d == 'generics': cur.generics = arg
                elif d == 'where': cur.where = arg
                elif d == 'free': cur.free = True
                elif d == 'loops': cur.nloops = int(arg)
                elif d == 'raw':
                    def sink(t, m=arg, pr=tuple(props)): raws.append((m, t, pr))
                elif d == 'c': pass
                else:
                    raise SystemExit(f'{path}: unknown directive {line}')
            else:
                buf.append(line)
        flush()
    return cs, raws


def marks(body, c, nloops, evident=None):
    """replaces the __vmark markers by loop specs and proof text; returns (text, used ok)"""
    def inv(m):
        n = int(m.group(1))
        return ' ' + LOOPSPEC(c, body, n) + ' {'
    def LOOPSPEC(c, body, n):
        auto = []
        txt = c.loops.get(n, '')
        indexed = re.search(r'let mut __i%d\b' % n, body)
        if indexed:
            auto.append(f'__i{n} <= __n{n},')
            if re.search(r'let __n%d = __v%d \. len' % (n, n), body):
                auto.append(f'__n{n} == __v{n}@.len(),')
            for k, x, kind, v in evident or ():
                if k != n: continue
                if kind == 'set':
                    w = '@' if v.endswith('@') else ''
                    auto.append(f'__i{n} == __s{n} ==> {x}{w} == __g{n}_{x}{w}, __i{n} > __s{n} ==> {x}{w} == {v},')
                else:
                    auto.append(f"{x} == __g{n}_{x} {'+' if kind == 'add' else '-'} {v} * (__i{n} - __s{n}),")
            if any(k == n for k, *_ in evident or ()): auto.append(f'__s{n} <= __i{n},')
        # clauses may come in any order and repeatedly; the verifier wants them grouped
        parts = re.split(r'(?m)^\s*(invariant_except_break|invariant|ensures|decreases)\b', txt)
        cl = {}
        for k, t in zip(parts[1::2], parts[2::2]):
            t = t.strip()
            cl[k] = cl.get(k, '') + t + ('' if not t or t.endswith(',') else ',') + '\n'
        if auto:
            cl['invariant'] = ' '.join(auto) + '\n' + cl.get('invariant', '')
        if 'decreases' not in cl and indexed:
            cl['decreases'] = f'__n{n} - __i{n},'
        return ' '.join(f'{k} {cl[k]}' for k in ('invariant_except_break', 'invariant', 'ensures', 'decreases') if k in cl)
    body = re.sub(r'\{ __vmark ! \(inv , (\d+)\) ;', inv, body)
    used = set()
    def at(m):
        k = (m.group(1), int(m.group(2)))
        used.add(k)
        ghost = ''
        if k[0] == 'pre':
            for n, x, *_ in evident or ():
                if n == k[1]: ghost += f' let ghost __g{n}_{x} = {x};'
            if ghost: ghost += f' let ghost __s{k[1]} = __i{k[1]};'
        hint = ''.join(f'\n/*@h {k[0]} {k[1]} {i}*/\n{x}\n/*@e*/\n' for i, x in enumerate(pieces(c.at.get(k, ''))) if (*k, i) not in c.dropped)
        return ghost + (lits if k[0] in ('start', 'top') else '') + hint
    # on the second attempt the text of each string literal is made known to the solver
    lits = ''
    if evident is not None:
        found = re.findall(r"""'(?:[^'\\]|\\.)'|"(?:[^"\\]|\\.)*\"""", body)
        lits = ''.join(f' reveal_strlit({x});' for x in sorted({x for x in found if x[0] == '"' and len(x) < 12}))
        lits = f' proof {{{lits} }}' if lits else ''
    body = re.sub(r'__vmark ! \((\w+) , (\d+)\) ;', at, body)
    return body, {k for k in set(c.at) - used if (*k, 0) not in c.dropped}


def loop_vars(u):
    """per loop, the variables of the function it changes: invariants are written for these"""
    out = []
    b = re.sub(r"'(?:[^'\\]|\\.)'" r'|"(?:[^"\\]|\\.)*"', '0', u['body'])
    for m in re.finditer(r'\{ __vmark ! \(inv , (\d+)\) ;', b):
        d, i = 0, m.start()
        while i < len(b):
            d += {'{': 1, '}': -1}.get(b[i], 0)
            if d == 0: break
            i += 1
        x = b[m.end():i]
        own = set(re.findall(r'\blet (?:mut )?(\w+)', x))
        for pat in re.findall(r'\b(?:let|Some|Ok|Err) (\([^=]*?\))', x): own |= set(re.findall(r'\b[a-z_]\w*', pat))
        got = set(re.findall(r'(?:^|[;{}]|=>)\s*\*? ?(\w+)(?: \[[^=;]*?\]| \. \w+)* (?:[-+*/%&|^]|<<|>>)?=(?!=|>)', x))
        got |= set(re.findall(r'(?<!\. )\b(\w+) \. (?:push|pop|remove|insert|extend\w*|truncate|push_str|next|append|clear|set|write_str|write_char|swap_remove|resize|reserve|drain) \(', x))
        out.append((int(m.group(1)), sorted(v for v in got - own if not re.match(r'__i\d+$', v))))
    return [v for _, v in sorted(out)]


def pieces(text):
    """the statements of a piece of proof text, as far as they are on lines of their own"""
    out, cur = [], ''
    for l in text.split('\n'):
        if not l.strip(): continue
        cur += l + '\n'
        n = re.sub(r'"(?:[^"\\]|\\.)*"', '', re.sub(r'//.*', '', cur))
        if all(n.count(a) == n.count(b) for a, b in ('{}', '()', '[]')) and n.rstrip().endswith((';', '}')):
            out.append(cur)
            cur = ''
    return out + ([cur] if cur else [])


def bound_names(u):
    """the names a function binds: its parameters, then its locals in order"""
    return [m.group(1) for a in u['args'] for m in [re.match(r'(?:mut )?(\w+) :', a.strip())] if m] + u['binds']


GHOST_WORDS = ('int', 'nat', 'real')  # such names get the suffix _v


def follow(c, u, old):
    """proof text follows the renaming of parameters and locals: `old` are the names it was written for. The verifier
    judges the result, so a wrong guess costs a proof and never soundness of the specification: a specification speaks
    of parameters only, and those must match by position."""
    import copy, difflib
    new = bound_names(u)
    if not old or old == new:
        return c
    so, sn, ren = set(old), set(new), {}
    for tag, i1, i2, j1, j2 in difflib.SequenceMatcher(None, old, new, autojunk=False).get_opcodes():
        if tag != 'replace': continue
        gone = list(dict.fromkeys(x for x in old[i1:i2] if x not in sn))
        came = list(dict.fromkeys(x for x in new[j1:j2] if x not in so))
        if len(gone) != len(came): continue
        for a, b in zip(gone, came):
            if ren.setdefault(a, b) != b: return c
    ren = {a: b for a, b in ren.items() if not a.startswith('__') and not b.startswith('__')}
    if not ren or len(set(ren.values())) != len(ren):
        return c
    n = len(new) - len(u['binds'])
    gw = lambda x: x + '_v' if x in GHOST_WORDS else x
    if any(old[i] in ren and ren[old[i]] != new[i] for i in range(min(n, len(old)))) or any(b in new[:n] and old.index(a) != new.index(b) for a, b in ren.items()):
        return c
    ren = {gw(a): gw(b) for a, b in ren.items()}
    def sub(s, names, field=r'|: *(?!int\b|nat\b|usize\b|u8\b|char\b|Seq\b|V\b|[:\s])'):
        if not names: return s
        return re.sub(r'"(?:[^"\\]|\\.)*"|(?<![\w.#])(' + '|'.join(map(re.escape, names)) + r')\b(?! *(?:\(|::' + field + '))', lambda m: ren[m.group(1)] if m.group(1) else m.group(0), s)
    params = [x for x in map(gw, old[:n]) if x in ren]
    c = copy.copy(c)
    c.spec, c.loops, c.at = sub(c.spec, params), {k: sub(v, ren) for k, v in c.loops.items()}, {k: sub(v, ren) for k, v in c.at.items()}
    if c.args: c.args = sub(c.args, params, '')
    c.renamed = ren
    return c


def pretty(t):
    t = re.sub(r' ; ', ' ;\n', t)
    t = re.sub(r'\{ ', '{\n', t)
    return t


def emit_fn(u, c, verify, bare=False, evident=False, dropped=()):
    c.dropped = dropped  # proof text that speaks of what the function no longer has
    if bare:  # the specification alone, without loop invariants and proof text
        import copy
        c = copy.copy(c)
        c.loops, c.at = {}, {k: v for k, v in c.at.items() if k[0] == 'start' and re.match(r'\s*(hide|reveal|broadcast use)', v)}
    args = c.args if c.args is not None else ' , '.join(u['args'])
    # names that are ghost types in the verifier's language
    args = re.sub(r'\b(int|nat|real) :', r'\1_v :', args)
    u = dict(u, body=re.sub(r"'(?:[^'\\]|\\.)'|" r'"(?:[^"\\]|\\.)*"|(?<!\. )\b(int|nat|real)\b', lambda m: m.group(0) + ('_v' if m.group(1) else ''), u['body']))
    gens = c.generics if c.generics is not None else ', '.join(u['generics'])
    gens = f'<{gens}>' if gens else ''
    rt = c.retty or u['ret']
    ret = f' -> ({c.ret}: {rt})' if rt else ''
    name = c.name or u['name']
    attrs = ''.join(a + ' ' for a in c.attrs)
    missing = set()
    if verify and not c.trusted:
        attrs += '#[verifier::spinoff_prover] '
        body, missing = marks(u['body'], c, len(u['loops']), [e for e in u.get('auto', []) if re.search(r'let mut __i%d\b' % e[0], u['body'])] if evident else None)
        body = pretty(body)
        if u['module'] in ('transaction', 'wallet', 'rpc'):
            body = re.sub(r'\. as_(ref|mut) \(\)', r'. as_\1_b ()', body)
            body = re.sub(r'\bu16 :: from \(', '__u16_from (', body)
        if u['loops']:
            attrs += '#[verifier::loop_isolation(false)] '
            if any(re.search(r'(?m)^\s*(ensures|invariant_except_break)\b', t) for t in c.loops.values()):
                attrs += '#[verifier::allow_complex_invariants] '
    else:
        body = '{ unimplemented!() }'
        attrs += '#[verifier::external_body] '
    vis = '' if c.wrap else 'pub '
    text = f'{attrs}{vis}fn {name}{gens}({args}){ret} {c.where}\n{c.spec}{body}\n'
    if c.wrap:
        text = c.wrap + '\n' + text + '}\n'
    elif u['self_ty'] and not c.free:
        lt = f"<{', '.join(u['impl_lifetimes'])}>" if u['impl_lifetimes'] else ''
        text = f"impl{lt} {u['self_ty']}{lt} {{\n{text}}}\n"
    return text, missing


HEAD = '''#![allow(unused, ambiguous_glob_reexports, non_camel_case_types, non_snake_case)]
#![cfg_attr(verus_keep_ghost, feature(allocator_api))]
use vstd::prelude::*;
'''


class Assembler:
    def __init__(self, units, contract_files=None):
        self.u = units
        files = contract_files or sorted(glob.glob(os.path.join(HERE, 'contracts', '*.vc')))
        self.cs, self.raws = parse_contracts(files)
        self.fns = {f['key']: f for f in units['fns']}
        p = os.path.join(HERE, 'contracts', 'names.json')
        names = json.load(open(p)) if os.path.exists(p) else {}
        have = {f"derive {t['module']}::{t['name']}": t['derives'] for t in units['types']}
        self.underived = sorted(f'{k[7:]}: {d}' for k, v in names.items() if k in have for d in v if d not in have[k])
        self.relooped = {}
        for k, c in self.cs.items():
            old = names.get('loops ' + k)
            if old is not None and k in self.fns:
                ren = follow(c, self.fns[k], names.get(k)).renamed
                new = loop_vars(self.fns[k])
                if len(new) == len(old) and [sorted(ren.get(v, v) for v in l) for l in old] != new:
                    self.relooped[k] = f'its loops now change {new}, its invariants are written for {old}'
        for k, c in self.cs.items():
            if k in self.fns: self.cs[k] = follow(c, self.fns[k], names.get(k))

    def type_text(self, t, cfg):
        key = f"{t['module']}::{t['name']}"
        txt = re.sub(r'std :: str :: Bytes\b', 'crate::prelude::__Bytes', t['text'])
        d = set(t['derives']) | ({'Copy'} if t['name'] in self.u['impls'].get('Copy', []) else set())
        out = ''
        der = []
        if t['kind'] == 'cenum':
            der = ['Clone', 'Copy', 'PartialEq', 'Eq']
            out += f"#[derive({', '.join(der)}, Structural)]\n{txt}\n"
        else:
            if 'Copy' in d:
                out += '#[derive(Clone, Copy)]\n'
            out += txt + '\n'
        own = any(m == t['module'] and f"impl CloneV for {t['name']} " in x for m, x, _ in self.raws)
        if 'Clone' in d and not own and not re.search(r"\w < '", txt.split('{')[0]):
            out += f"impl CloneV for {t['name']} {{ open spec fn ceq(&self, r: &Self) -> bool {{ *r == *self }} #[verifier::external_body] fn clone_v(&self) -> (r: Self) {{ unimplemented!() }} }}\n"
        return out

    def derived_clone(self, name):
        """the body of a derived Clone"""
        for t in self.u['types']:
            if t['name'] == name and 'Clone' in t['derives']:
                if t['kind'] == 'struct':
                    fs = re.findall(r'pub (\w+) :', t['text'].split('{', 1)[1])
                    return '{ ' + name + ' { ' + ', '.join(f'{f}: self.{f}.clone_v()' for f in fs) + ' } }'
                if t['kind'] == 'enum':
                    arms = []
                    for v, args in re.findall(r'(\w+) \(((?:[^()]|\([^()]*\))*)\)', t['text'].split('{', 1)[1]):
                        n = len([a for a in re.split(r',(?![^<]*>)', args) if a.strip()])
                        xs = ', '.join(f'x{i}' for i in range(n))
                        arms.append(f'{name}::{v}({xs}) => {name}::{v}(' + ', '.join(f'x{i}.clone_v()' for i in range(n)) + ')')
                    return '{ match self { ' + ', '.join(arms) + ' } }'
        return '{ the_type_does_not_derive_clone() }'

    def build(self, modules, verify_keys, broken=(), bare=(), evident=(), dropped={}):
        """modules: names of repository modules to include; verify_keys: functions whose bodies are verified"""
        u = self.u
        lost = []
        out = [HEAD, 'verus! {\nglobal size_of usize == 8;\n} // verus!\n']
        th = lambda n: open(os.path.join(HERE, 'theory', n + '.rs')).read()
        index = []
        def theory(n, uses=''):
            if uses is None:
                out.append(f'pub mod {n} {{\n{th(n)}\n}}\n')
                return
            out.append(f'pub mod {n} {{ use vstd::prelude::*; use vstd::utf8::*; {uses}\nverus! {{\n{th(n)}\n}} }}\n')
        theory('num')
        theory('sq')
        theory('ax', 'use vstd::string::*;')
        theory('prelude', 'use crate::num::*;')
        for n, uses in self.theories(modules):
            theory(n, uses)
        def module(m):
            o = []
            o.append(f'pub mod {m} {{\nuse vstd::prelude::*; use vstd::utf8::*; use crate::prelude::*; use crate::num::*; use crate::codec::*; use vstd::string::*; {self.uses(m, modules)}\nverus! {{\nbroadcast use {{{'' if m == 'cv' else 'crate::sq::group_sq, '}{'crate::cv::group_words, ' if m in ('clarity', 'transaction', 'rpc') else ''}crate::ax::axiom_str_bytes, crate::ax::axiom_slice_len, {'crate::ax::lemma_slice_eq, ' if m in ('b58', 'c32') else ''}crate::ext::ring::digest::axiom_dig_len, crate::ext::ring::digest::axiom_dig_len2, crate::ext::ring::digest::lemma_dig_ext, crate::ext::ripemd::axiom_rmd_len, crate::ext::secp256k1::axiom_pk_len}};\n')
            o.append(self.ext_uses(m))
            for t in u['types']:
                if t['module'] == m and f"{m}::{t['name']}" not in self.skip_types(modules):
                    o.append(self.type_text(t, None))
            for c in u['consts']:
                if c['module'] == m:
                    o.append(c['text'] + '\n')
            done = set()
            for f in u['froms']:
                if f['module'] == m and (f['enum'], f['ty']) not in done:
                    done.add((f['enum'], f['ty']))
                    o.append(f"impl From<{f['ty']}> for {f['enum']} {{ #[verifier::external_body] fn from(e: {f['ty']}) -> (r: Self) {{ unimplemented!() }} }}\n")
            for mm, t, pr in self.raws:
                if mm == m:
                    t = re.sub(r'__derived_clone!\((\w+)\)', lambda x: self.derived_clone(x.group(1)), t)
                    t = re.sub(r'(?m)^((?:pub )?proof fn )', r'#[verifier::spinoff_prover] \1', t)
                    o.append(f"//@@ raw:{m}:{','.join(pr)}\n{t}\n//@@ end\n")
            for f in u['fns']:
                if f['module'] != m:
                    continue
                c = self.cs.get(f['key'])
                if c is None:
                    continue
                v = f['key'] in verify_keys and f['key'] not in broken
                text, missing = emit_fn(f, c, v, f['key'] in bare, f['key'] in evident, dropped.get(f['key'], ()))
                if missing:
                    lost.append((f['key'], 'the places of its proof text are gone: ' + ', '.join(f'{a} {b}' for a, b in sorted(missing)), missing))
                o.append(f"//@@ {f['key']}\n" + text + '//@@ end\n')
            o.append('} // verus!\n}\n')
            return ''.join(o)
        out.append('pub mod crypto {\n' + ''.join(f'pub use self::{m}::*; ' for m in ['hex', 'hash', 'b58', 'c32'] if m in modules) + '\n')
        for m in ['hex', 'hash', 'b58', 'c32']:
            if m in modules:
                out.append(module(m))
        out.append('}\n')
        for m in ['cv', 'clarity', 'transaction', 'wallet', 'rpc', 'derive', 'uses']:
            if m in modules:
                out.append(module(m))
        for n, uses, after in self.after_theories(modules):
            theory(n, uses)
        out.append('fn main() {}\n')
        for k, c in self.cs.items():
            if k not in self.fns and k.split('::')[0] in modules and k in verify_keys:
                lost.append((k, 'function not found', ()))
        return ''.join(out), lost

    def ext_uses(self, m):
        ext = open(os.path.join(HERE, 'theory', 'ext.rs')).read()
        names = set(re.findall(r'pub (?:struct|const|enum|fn|type|mod) (\w+)', ext))
        seen, out = set(), ''
        for x in self.u['uses']:
            if x['module'] != m: continue
            root = x['path'].split('::')[0]
            if root in ('ring', 'ripemd', 'secp256k1', 'bip32', 'bip39') and x['path'].split('::')[-1] in names and x['alias'] not in seen and x['path'] != 'ripemd::Digest':
                seen.add(x['alias'])
                out += f"use crate::ext::{x['path']} as {x['alias']};\n"
        return 'use crate::ext::{ring, ripemd, secp256k1};\n' + ('use crate::ext::{bip32, bip39, collections::*};\n' if m == 'wallet' else 'use crate::ext::ureq;use crate::ext::ureq::*;\n' if m == 'rpc' else '') + out

    def theories(self, modules):
        return [('codec', 'use crate::num::*; use crate::prelude::*;'), ('ext', None)]

    def after_theories(self, modules):
        return []

    def skip_types(self, modules):
        return set()

    def uses(self, m, modules):
        g = {'hex': [], 'hash': [], 'b58': ['hash'], 'c32': ['hash', 'hex'], 'cv': ['hash', 'c32'], 'clarity': ['hash', 'c32', 'hex', 'cv'], 'transaction': ['hash', 'c32', 'hex', 'cv', 'clarity'], 'wallet': ['hash', 'c32'], 'rpc': ['hash', 'c32', 'hex', 'cv', 'clarity', 'transaction'], 'derive': ['hash', 'c32', 'hex', 'cv', 'clarity'], 'uses': ['hash', 'c32', 'hex', 'cv', 'clarity', 'transaction']}[m]
        s = '' if m in ('hex', 'hash', 'b58', 'c32') else 'use crate::crypto; '
        for x in g:
            if x in modules:
                p = f'crate::crypto::{x}' if x in ('hex', 'hash', 'b58', 'c32') else f'crate::{x}'
                s += f'use {p}; ' + (f'use {p}::*; ' if True else '')
        return s


if __name__ == '__main__':
    import sys
    units = json.load(open(sys.argv[1]))
    a = Assembler(units)
    mods = sys.argv[2].split(',')
    if 'clarity' in mods: mods.append('cv')
    keys = {k for k in a.cs if k.split('::')[0] in mods}
    if len(sys.argv) > 3:
        keys = {k for k in keys if re.search(sys.argv[3], k)}
    text, lost = a.build(mods, keys, evident=keys if os.environ.get('V_EVIDENT') else ())
    print(text)
    if lost:
        print('LOST', lost, file=sys.stderr)
