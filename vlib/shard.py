"""One shard of a check: imports the code under test, then runs the sub-checks of one property."""
import argparse
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def import_hypothesis(shard_dir):
    """Hypothesis is not installed beside the code under test. Link just the modules it needs into the module
    path, after everything else, so that the code under test sees the packages it would see otherwise."""
    try:
        import hypothesis  # noqa
        return
    except ImportError:
        pass
    import glob
    import zipfile
    d = os.path.join(shard_dir, 'hyp')
    os.makedirs(d, exist_ok=True)
    names = ['hypothesis', '_hypothesis_ftz_detector.py', '_hypothesis_globals.py', '_hypothesis_pytestplugin.py',
             'sortedcontainers', 'attr', 'attrs']
    for sp in glob.glob('/opt/veriftools/pyvenv/lib/python3*/site-packages'):
        if os.path.isdir(os.path.join(sp, 'hypothesis')) and 'python%d.%d/' % sys.version_info[:2] in sp:
            for n in names:
                if os.path.exists(os.path.join(sp, n)):
                    os.symlink(os.path.join(sp, n), os.path.join(d, n))
            break
    else:
        tag = 'cp%d%d' % sys.version_info[:2]
        for w in glob.glob('/opt/veriftools/wheels/hypothesis-*%s-*.whl' % tag) + \
                glob.glob('/opt/veriftools/wheels/sortedcontainers-*.whl'):
            zipfile.ZipFile(w).extractall(d)
    sys.path.append(d)
    import hypothesis  # noqa


def fast_entry_points():
    """Resolving the requirements of an entry point takes most of the time of opening a document, and is done again
    for each URL, in the packages that the code under test uses. Remember what was loaded."""
    import pkg_resources
    load, loaded = pkg_resources.EntryPoint.load, {}

    def cached(self, *args, **kwargs):
        k = (str(self), self.dist and self.dist.location)
        if k not in loaded:
            loaded[k] = load(self, *args, **kwargs)
        return loaded[k]

    pkg_resources.EntryPoint.load = cached


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier')
    ap.add_argument('--seed', type=int)
    ap.add_argument('--shard', type=int)
    ap.add_argument('--shards', type=int)
    ap.add_argument('--out')
    ap.add_argument('--replay')
    a = ap.parse_args()

    repo = os.environ.get('VERIF_REPO', '/repo')
    sys.path.insert(0, repo)
    sys.path.insert(1, HERE)
    # The directory of this script is at the front of the path, and would shadow nothing, but remove it anyway
    sys.path[:] = [p for p in sys.path if os.path.realpath(p or '.') != os.path.join(HERE, 'vlib')]
    fast_entry_points()
    import metatab
    assert os.path.realpath(metatab.__file__).startswith(os.path.realpath(repo) + os.sep), metatab.__file__

    shard_dir = os.environ['VERIF_SHARD_DIR']
    import_hypothesis(shard_dir)

    from vlib import core
    mod = importlib.import_module('props.' + a.property.lower())
    res = core.run(mod, a.property, a.tier, a.seed, a.shard, a.shards, shard_dir, a.replay)
    tmp = a.out + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(res, f)
    os.rename(tmp, a.out)
    return 0


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
