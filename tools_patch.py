#!/usr/bin/env python3
"""Prepare patched copies of four dependencies (build/patched/).

None of krill-sync's own code is touched.  The edits replace what lies outside
the claim: decimal rendering/parsing of *symbolic* numbers (itoa, serde_json,
rpki's `serial` attribute), the local time zone (chrono := UTC) and the
signature primitive (rpki: ideal, see vp_verify).
"""
import os, shutil, sys, glob

REG = glob.glob(os.path.expanduser('~/.cargo/registry/src/index.crates.io-*'))
OUT = sys.argv[1]
LOCK = sys.argv[2]

def ver(name):
    cur = None
    for l in open(LOCK):
        l = l.strip()
        if l.startswith('name = '):
            cur = l.split('"')[1]
        elif l.startswith('version = ') and cur == name:
            return l.split('"')[1]
    raise SystemExit(f'no {name} in {LOCK}')

def find(name):
    v = ver(name)
    for r in REG:
        p = os.path.join(r, f'{name}-{v}')
        if os.path.isdir(p):
            return p
    raise SystemExit(f'{name}-{v} not in the cargo registry')

def copy(name):
    src, dst = find(name), os.path.join(OUT, name)
    if os.path.isdir(dst):
        shutil.rmtree(dst)
    shutil.copytree(src, dst, ignore=shutil.ignore_patterns('test-data', 'tests', 'benches', 'examples', '.cargo-ok', 'Cargo.lock'))
    # drop [dev-dependencies], [[bench]], [[test]], [[example]] sections
    t = open(dst + '/Cargo.toml').read().split('\n')
    out, skip = [], False
    for l in t:
        if l.startswith('['):
            skip = any(l.startswith(x) for x in ('[dev-dependencies', '[[bench', '[[test', '[[example', '[target', '[lints', '[badges'))
            if l.startswith('[target') and 'dev-dependencies' not in l:
                skip = False
        if not skip:
            out.append(l)
    open(dst + '/Cargo.toml', 'w').write('\n'.join(out))
    return dst

def edit(f, pairs):
    s = open(f).read()
    for a, b, n in pairs:
        if n is not None and s.count(a) != n:
            raise SystemExit(f'{f}: expected {n} of {a!r}, found {s.count(a)}')
        s = s.replace(a, b)
    open(f, 'w').write(s)

def main():
    os.makedirs(OUT, exist_ok=True)
    d = copy('itoa')
    edit(d + '/src/lib.rs', [
        ('                let is_nonnegative = self >= 0;\n',
         '                if core::mem::size_of::<$t>() == 8 && unsafe { vp_is_symbolic(self as u64) } != 0 {\n'
         '                    let p = buf.as_mut_ptr() as *mut u8;\n'
         '                    let n = unsafe { vp_render(self as u64, p) };\n'
         '                    return unsafe { str::from_utf8_unchecked(slice::from_raw_parts(p, n)) };\n'
         '                }\n'
         '                let is_nonnegative = self >= 0;\n', None),
        ('mod private {\n', 'extern "C" { fn vp_is_symbolic(v: u64) -> u32; fn vp_render(v: u64, p: *mut u8) -> usize; }\nmod private {\n', 1),
    ])
    d = copy('serde_json')
    edit(d + '/src/de.rs', [
        ("            b'0'..=b'9' => tri!(self.parse_integer(true)).visit(visitor),\n",
         "            b'0'..=b'9' => tri!(self.parse_integer(true)).visit(visitor),\n"
         "            b'A'..=b'P' => {\n"
         "                let mut b = [0u8; 16];\n"
         "                for x in b.iter_mut() {\n"
         "                    *x = tri!(self.next_char_or_null());\n"
         "                }\n"
         "                extern \"C\" { fn vp_unrender(p: *const u8) -> u64; }\n"
         "                ParserNumber::U64(unsafe { vp_unrender(b.as_ptr()) }).visit(visitor)\n"
         "            }\n", None),
        ("                b'0'..=b'9' => {\n                    tri!(self.ignore_integer());\n                    None\n                }\n",
         "                b'0'..=b'9' => {\n                    tri!(self.ignore_integer());\n                    None\n                }\n"
         "                b'A'..=b'P' => {\n                    for _ in 0..16 {\n                        tri!(self.next_char_or_null());\n                    }\n"
         "                    None\n                }\n", None),
    ])
    d = copy('rpki')
    edit(d + '/src/rrdp.rs', [
        ('serial = Some(value.ascii_into()?)', 'serial = Some(value.ascii_into_serial()?)', None),
    ])
    # signatures: exactly what was signed with a key verifies (vp_verify)
    edit(d + '/src/crypto/keys.rs', [
        ('        self.algorithm.verify(\n            Input::from(self.bits()),\n            Input::from(message),\n'
         '            Input::from(signature.value().as_ref())\n        )\n',
         '        extern "C" { fn vp_verify(k: *const u8, kn: usize, m: *const u8, mn: usize, s: *const u8, sn: usize) -> u32; }\n'
         '        let (k, s) = (self.bits(), signature.value().as_ref());\n'
         '        if unsafe { vp_verify(k.as_ptr(), k.len(), message.as_ptr(), message.len(), s.as_ptr(), s.len()) } == 1 {\n'
         '            Ok(())\n'
         '        } else {\n'
         '            Err(SignatureVerificationError(()))\n'
         '        }\n', 1),
    ])
    edit(d + '/src/xml/decode.rs', [
        ('    pub fn into_ascii_bytes(self)',
         '    pub fn ascii_into_serial(self) -> Result<u64, Error> {\n'
         '        extern "C" { fn vp_is_symbolic(v: u64) -> u32; fn vp_unrender(p: *const u8) -> u64; }\n'
         '        let s = self.0.unescape_value()?;\n'
         '        if !s.is_ascii() {\n'
         '            return Err(Error::Malformed)\n'
         '        }\n'
         '        let b = s.as_bytes();\n'
         '        if b.len() == 16 && unsafe { vp_is_symbolic(b[15] as u64) } != 0 {\n'
         '            return Ok(unsafe { vp_unrender(b.as_ptr()) })\n'
         '        }\n'
         '        std::str::FromStr::from_str(s.as_ref()).map_err(|_| Error::Malformed)\n'
         '    }\n\n'
         '    pub fn into_ascii_bytes(self)', 1),
    ])
    d = copy('chrono')
    f = d + '/src/offset/local/mod.rs'
    s = open(f).read()
    i = s.index('#[cfg(unix)]\n#[path = "unix.rs"]\nmod inner;')
    s = s.replace('#[cfg(unix)]\n#[path = "unix.rs"]\nmod inner;',
      '#[cfg(unix)]\nmod inner {\n    use crate::{FixedOffset, MappedLocalTime, NaiveDateTime};\n'
      '    pub(super) fn offset_from_utc_datetime(_: &NaiveDateTime) -> MappedLocalTime<FixedOffset> {\n'
      '        MappedLocalTime::Single(FixedOffset::east_opt(0).unwrap())\n    }\n'
      '    pub(super) fn offset_from_local_datetime(_: &NaiveDateTime) -> MappedLocalTime<FixedOffset> {\n'
      '        MappedLocalTime::Single(FixedOffset::east_opt(0).unwrap())\n    }\n}')
    s = s.replace('#[cfg(unix)]\nmod tz_info;', '')
    open(f, 'w').write(s)

main()
