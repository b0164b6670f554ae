"""Random loops over the characters or bytes of a text, for the self-test of the loop summaries
(rv/selftest.py --random SEED N): each generated function scans its argument in one of some
twenty styles (for loops, iterators taken apart, index loops, texts that shrink), keeps a flag, a count, the
previous character and a position, and leaves early at random."""
import random


def source(template, seed, n):
    """the text of the self-test crate with its functions replaced by `n` random ones"""
    R = random.Random(seed)
    CH=["':'","'.'","'a'","'/'"]
    def charcond(c='c'):
        return R.choice([f"{c} == {R.choice(CH)}",f"{c} != {R.choice(CH)}",f"{c}.is_ascii_digit()",f"{c}.is_alphabetic()",f"matches!({c}, 'a'..='f' | ':')",f"!{c}.is_ascii()"])
    def bytecond():
        return R.choice(["c == b':'","c != b'.'","c.is_ascii_digit()","c.is_ascii_alphabetic()","c >= 0x80","matches!(c, b'a'..=b'f' | b':')"])
    def cond(k,d=0):
        r=R.random()
        if d<2 and r<.25: return f"({cond(k,d+1)} && {cond(k,d+1)})"
        if d<2 and r<.4: return f"({cond(k,d+1)} || {cond(k,d+1)})"
        opts=[k['cc']]*4+[lambda:R.choice(['b','!b'])]*2
        opts+= [lambda:R.choice(['n > 0','n == 0','n == 1','n > 1'])]
        opts+= [lambda:k['pc']()]
        opts+= [(lambda x=x:x) for x in k['extra']]
        return R.choice(opts)()
    def stmt(k,d=0):
        r=R.random()
        if d<1 and r<.6:
            a=stmt(k,1)
            e=f" else {{ {stmt(k,1)} }}" if R.random()<.3 else ""
            return f"if {cond(k)} {{ {a} }}{e}"
        o=["b = true;","b = false;",f"b = {cond(k)};","n += 1;" if R.random()<.4 else "n = 1;","n = 0;","p = c;",f"return Err({R.randint(1,3)});",f"return Err({R.randint(1,3)});"]
        if k['brk']: o+=["break;","continue;"] if k['cont'] else ["break;"]
        o+=k['st']
        return R.choice(o)
    def gen(i):
        kind=R.choice(['chars','chars','idx','rev','revidx','bytes','peek','asstr','enum','skip','vec','wbytes','back','clone','split1','rbytes']+['pos','posb','walk','walkpos','walkend','walkpop']*3)
        ch={'cc':charcond,'pc':lambda:charcond('p'),'extra':[],'st':[],'brk':True,'cont':True}
        P="let mut b = false; let mut n = 0usize; let mut p = '\\0'; let mut l = None; "
        byt={'cc':bytecond,'pc':lambda:"p == b':'",'extra':[],'st':[],'brk':True,'cont':True}
        PB=P.replace("'\\0'","0u8")
        ixs=["l = Some(i);"]
        if kind=='chars': k=ch; pre,post=P+"for c in s.chars() { ","}"
        elif kind=='idx': k=ch; k['extra']=["i == 0","i + 1 == s.len()","i > 0","s[i..].starts_with(\":\")"]; k['st']=ixs; pre,post=P+"for (i, c) in s.char_indices() { ","}"
        elif kind=='rev': k=ch; pre,post=P+"for c in s.chars().rev() { ","}"
        elif kind=='revidx': k=ch;k['extra']=["i == 0","i + 1 == s.len()","i > 0"];k['st']=ixs; pre,post=P+"for (i, c) in s.char_indices().rev() { ","}"
        elif kind=='bytes': k=byt; pre,post=PB+"for c in s.bytes() { ","}"
        elif kind=='rbytes': k=byt; pre,post=PB+"for &c in s.as_bytes().iter().rev() { ","}"
        elif kind=='peek': k=ch;k['extra']=["it.peek().is_none()","it.peek() == Some(&':')","it.peek().is_some_and(|x| x.is_ascii_digit())"]; k['st']=["it.next();"]; pre,post=P+"let mut it = s.chars().peekable(); while let Some(c) = it.next() { ","}"
        elif kind=='asstr': k=ch;k['extra']=["it.as_str().is_empty()","it.as_str().starts_with(':')","it.as_str().ends_with('.')"];k['st']=["it.next();"]; pre,post=P+"let mut it = s.chars(); while let Some(c) = it.next() { ","}"
        elif kind=='enum': k=ch;k['extra']=["i == 0","i > 0","i == 1"];k['st']=ixs; pre,post=P+"for (i, c) in s.chars().enumerate() { ","}"
        elif kind=='skip': k=ch; pre,post=P+"for c in s.chars().skip(1) { ","}"
        elif kind=='vec': k=ch;k['extra']=["i == 0","i + 1 == v.len()","i > 0","(i > 0 && v[i - 1] == ':')","(i + 1 < v.len() && v[i + 1] == ':')"];k['st']=ixs; pre,post=P+"let v: Vec<char> = s.chars().collect(); for i in 0..v.len() { let c = v[i]; ","}"
        elif kind=='wbytes': k=byt;k['cont']=False;k['extra']=["i == 0","i + 1 == v.len()","i > 0"];k['st']=ixs; pre,post=PB+"let v = s.as_bytes(); let mut i = 0; while i < v.len() { let c = v[i]; "," i += 1; }"
        elif kind=='back': k=ch;k['extra']=["it.as_str().is_empty()"]; pre,post=P+"let mut it = s.chars(); while let Some(c) = it.next_back() { ","}"
        elif kind=='clone': k=ch;k['extra']=["it.clone().next().is_none()","it.clone().next() == Some(':')","it.clone().all(|x| x.is_ascii_digit())"]; pre,post=P+"let mut it = s.chars(); while let Some(c) = it.next() { ","}"
        elif kind in('pos','posb'):
            k=ch;k['extra']=["i == 0","i > 0","i == 1","i > 2","i % 2 == 0"] if kind=='pos' else ["i == 0","i + 1 == s.len()","i > 1","s[i..].starts_with(':')"];k['st']=ixs+(["l = Some(i + 1);"])
            inc="i += 1;" if kind=='pos' else "i += c.len_utf8();"
            k['cont']=R.random()<.3
            if R.random()<.3 and kind=='pos': pre,post=P+"let mut i = 0usize; for c in s.chars() { "+inc,"}"
            else: pre,post=P+"let mut i = 0usize; for c in s.chars() { ",inc+"}"
        elif kind in('walk','walkpos'):
            k=ch;k['extra']=["r.len() == s.len()","r.len() == 1","r.starts_with(':')","r.ends_with('.')"]+(["i == 0","i > 1"] if kind=='walkpos' else []);k['st']=["l = Some(r.len());"];ixs=k['st'];k['cont']=False
            if kind=='walkpos': k['st']+=["l = Some(i);"]
            pre,post=P+"let mut i = 0usize; let mut r = s; while let Some(c) = r.chars().next() { ","i += 1; r = &r[c.len_utf8()..]; } let _ = i;"
        elif kind=='walkend':
            k=ch;k['extra']=["r.len() == s.len()","r.len() == 1","r.starts_with(':')"];k['st']=["l = Some(r.len());"];ixs=k['st'];k['cont']=False
            pre,post=P+"let mut r = s; while let Some(c) = r.chars().next_back() { ","r = &r[..r.len() - c.len_utf8()]; }"
        elif kind=='walkpop':
            k=ch;k['extra']=["r.is_empty()","r.len() + 1 == s.len()","r.starts_with(':')"];k['st']=["l = Some(r.len());"];ixs=k['st']
            pre,post=P+"let mut r = s.to_string(); while let Some(c) = r.pop() { ","}"
        elif kind=='split1': k=ch; pre,post=P+"let (x, y) = s.split_once(':').unwrap_or((s, \"\")); for c in x.chars().chain(y.chars()) { ","}"
        body=' '.join(stmt(k) for _ in range(R.randint(1,3)))
        ret="p" 
        t='char' if 'b' != k.get('x') and k is ch else 'u8'
        fin=R.choice(["b","b","(n == 1)","(n > 0)"])
        return f"    g{i}(s) -> Result<(bool, {t}, Option<usize>), u8> {{ {pre}{body} {post} Ok(({fin}, p, {'l' if k['st']==ixs else 'l.or(Some(0usize))'})) }}"

    i, j = template.index('pub mod a {'), template.index('pub trait J')
    return (template[:i].replace('#![allow(clippy::all, deprecated, unused_mut)]', '#![allow(warnings)]')
            + 'pub mod a {\nuse super::*;\none! {\n' + '\n'.join(gen(x) for x in range(n))
            + '\n}\n}\n\npub mod b {\nuse super::*;\ntwo! {\n    eq(s, p) -> bool { s == p }\n}\n}\n\n'
            + 'pub mod c {\npub const ONE: &[&str] = &[];\npub fn call1(_: &str, _: &str) -> String { String::new() }\n}\n\n' + template[j:])
