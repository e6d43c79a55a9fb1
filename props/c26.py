"""C26: helpers for files and directories"""
import hashlib
import os

from hypothesis import strategies as st

from metatab import util

from vlib.core import Check, check, raises, same

NAMES = ['a', 'b.csv', 'metadata.csv', 'sub dir', 'été', '.hidden', 'UPPER', 'x.d']

gen_blocks = st.sampled_from([0, 1, 1, 2, 3, 4, 9, 17, 33, 64, 129])
content = st.one_of(st.binary(max_size=40), st.tuples(gen_blocks, st.integers(-2, 2), st.integers(0, 255)).map(list))

small = st.one_of(st.binary(max_size=40), st.tuples(st.sampled_from([1, 2, 40]), st.integers(-2, 2), st.integers(0, 255)).map(list))


def data(c):
    """Bytes, or the size of a file near a multiple of the size of a block"""
    if isinstance(c, list):
        n = max(0, c[0] * 8192 + c[1])
        return (bytes((i * 7 + c[2]) % 251 for i in range(251)) * (n // 251 + 1))[:n]
    return c if isinstance(c, bytes) else bytes.fromhex(c)


def tree(depth):
    kids = small.map(lambda c: c.hex() if isinstance(c, bytes) else c)
    if depth:
        kids = st.one_of(kids, tree(depth - 1))
    return st.dictionaries(st.sampled_from(NAMES), kids, max_size=4)


def make(d, t):
    os.makedirs(d, exist_ok=True)
    for n, v in t.items():
        p = os.path.join(d, n)
        if isinstance(v, dict):
            make(p, v)
        else:
            with open(p, 'wb') as f:
                f.write(data(v))


def read(d):
    out = {}
    for n in os.listdir(d):
        p = os.path.join(d, n)
        if os.path.isdir(p):
            out[n] = read(p)
        else:
            with open(p, 'rb') as f:
                out[n] = f.read()
    return out


def expected(t):
    return {n: expected(v) if isinstance(v, dict) else data(v) for n, v in t.items()}


def paths(t, pre=''):
    for n, v in t.items():
        yield pre + n, isinstance(v, dict)
        if isinstance(v, dict):
            yield from paths(v, pre + n + '/')


def copy(case, ctx):
    src, dst = os.path.join(ctx.dir, 'src'), os.path.join(ctx.dir, 'dst')
    make(src, case['src'])
    there = {n: v for n, v in case['dst'].items() if not isinstance(v, dict) and not isinstance(case['src'].get(n), dict)}
    make(dst, there)
    util.copytree(src, dst)
    same(read(src), expected(case['src']), 'the source, after the copy')
    same(read(dst), dict(expected(there), **expected(case['src'])), 'the copy')
    return len(case['src']) > 1


def md5(case, ctx):
    b = data(case)
    p = ctx.write('f.bin', b)
    same(util.md5_file(p), hashlib.md5(b).hexdigest(), 'the digest of %d bytes' % len(b))
    check(util.md5_file(p + '.nosuch') is None, 'the digest of a file that does not exist')
    check(util.md5_file(ctx.dir) is None, 'the digest of a directory')
    ctx.label('more than a block' if len(b) > 8192 else 'one block' if len(b) == 8192 else 'less')
    return len(b) > 0


def walk(case, ctx):
    root = os.path.join(os.path.realpath(ctx.dir), 'base')
    make(root, case)
    dirs = [p for p, isd in paths(case) if isd]
    for d in [''] + dirs:
        start = os.path.normpath(os.path.join(root, d))
        got = list(util.walk_up(start))
        same([g[0] for g in got], parents(start), 'directories')
        for p, ds, fs in got:
            if not p.startswith(root):
                continue  # Others may change
            names = os.listdir(p)
            same(sorted(ds), sorted(n for n in names if os.path.isdir(os.path.join(p, n))), 'directories in ' + p)
            same(sorted(fs), sorted(n for n in names if not os.path.isdir(os.path.join(p, n))), 'files in ' + p)
    return bool(dirs)


def parents(p):
    out = [p]
    while os.path.dirname(p) != p:
        p = os.path.dirname(p)
        out.append(p)
    return out


def structure(case, ctx):
    base = os.path.join(ctx.dir, 'base')
    make(base, case['tree'])
    before = read(base)
    if case['block'] is not None:
        p = [util.DOWNLOAD_DIR, util.PACKAGE_DIR, util.OLD_DIR][case['block']]
        ctx.write(os.path.join('base', p), 'x')
        raises(IOError, util.make_dir_structure, base)
        with open(os.path.join(base, p)) as f:
            same(f.read(), 'x', 'the file in the place of a directory')
        ctx.label('a file in the way')
        return True
    for _ in range(2):
        util.make_dir_structure(base)
        for p in (util.DOWNLOAD_DIR, util.PACKAGE_DIR, util.OLD_DIR):
            check(os.path.isdir(os.path.join(base, p)), 'no directory {}', p)
        got = read(base)
        got.pop(util.MP_DIR)
        same(got, before, 'the other files')
        ctx.write(os.path.join('base', util.DOWNLOAD_DIR, 'kept'), 'y')
    util.make_dir_structure(base)
    check(os.path.exists(os.path.join(base, util.DOWNLOAD_DIR, 'kept')), 'a file in the structure is gone')
    d = os.path.join(base, case['dirs'])
    util.ensure_dir(d)
    check(os.path.isdir(d), 'no directory {}', d)
    with open(os.path.join(d, 'f'), 'w') as f:
        f.write('z')
    util.ensure_dir(d)
    check(os.path.exists(os.path.join(d, 'f')), 'a file in the directory is gone')
    util.ensure_dir('')
    util.ensure_dir(None)
    return True


CHECKS = [
    Check('md5', content.map(lambda c: c.hex() if isinstance(c, bytes) else c), md5, quick=300, thorough=20000,
          rule='files of any content, of sizes near multiples of the block size; non-trivial: not empty'),
    Check('copytree', st.fixed_dictionaries(dict(src=tree(2), dst=tree(0))), copy, quick=200, thorough=20000,
          rule='directory trees, copied into a directory that has some of the files; non-trivial: more than one entry'),
    Check('walk_up', tree(3), walk, quick=120, thorough=10000,
          rule='every directory of generated trees; non-trivial: there are subdirectories'),
    Check('structure', st.fixed_dictionaries(dict(tree=tree(1), block=st.sampled_from([None, None, 0, 1, 2]),
                                                  dirs=st.sampled_from(['n', 'n/o/p', '.', 'q/../r']))), structure,
          quick=120, thorough=10000, rule='directories with other files, with and without a file in the way'),
]
