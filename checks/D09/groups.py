# Explores every sequence of operations on an image group up to a depth and compares the group, and the measurement
# groups made from it, with a plain tree. Arguments: file for the result, depth, FITS files of the group, '+', two more.
import io
import sys

from sourcextractor.config import *
from sourcextractor.config.measurement_images import MeasurementImage

out, depth = sys.argv[1], int(sys.argv[2])
plus = sys.argv.index('+')
files, more = sys.argv[3:plus], sys.argv[plus + 1:]
lines = []
counts = {'sequences': 0, 'states': 0, 'refused': 0}


def value(image, key):
    """The keyword as the header gives it"""
    return image.meta.get(key)


class Node(object):
    """What the group has to be: images, or subgroups in order."""

    def __init__(self, images):
        self.images, self.subs = list(images), None

    def split(self, f):
        """f: images -> [(key, images)] or None when it cannot be done"""
        if self.subs is not None:
            for _, s in self.subs:
                if not s.split(f):
                    return False
            return True
        parts = f(self.images)
        if parts is None:
            return False
        self.subs = [(k, Node(v)) for k, v in parts]
        self.images = []
        return True

    def dump(self):
        if self.subs is None:
            return [i.id for i in self.images]
        return tuple((k, s.dump()) for k, s in self.subs)

    def leaves(self):
        return list(self.images) if self.subs is None else [i for _, s in self.subs for i in s.leaves()]


def dump(g):
    if g.is_leaf():
        r = [i.id for i in g]
    else:
        r = tuple((k, dump(s)) for k, s in g)
        for k, s in g:
            if g[k] is not s:
                raise Exception('item %s is not the subgroup of that name' % (k,))
    if len(g) != len(r):
        raise Exception('%d members but length %d' % (len(r), len(g)))
    return r


def by(key):
    def f(images):
        r = []
        for i in images:
            k = key(i)
            if k is None:
                return None
            for e in r:
                if e[0] == k:
                    e[1].append(i)
                    break
            else:
                r.append((k, [i]))
        return r
    return f


def char(n):
    def f(i):
        v = value(i, 'F')
        return None if v is None or len(v) <= n else v[n]
    return f


def parity(images):
    return [(k, images[k::2]) for k in range(2) if images[k::2]]


def with_empty(images):
    return [('none', []), (('all', 1), list(images))]


def losing(images):
    return [('first', images[:1])]


def split(method, model):
    return lambda g, m: (lambda: g.split(method), lambda: m.split(model))


extra = [MeasurementImage(f) for f in more]


def add(what):
    def f(g, m):
        def model():
            if m.subs is not None:
                return False
            m.images.extend(what)
            return True
        return (lambda: g.add_images(what[0] if len(what) == 1 else list(what)), model)
    return f


def add_group(g, m):
    def model():
        if m.subs is not None:
            return False
        m.images.extend(extra)
        return True
    return (lambda: g.add_images(ImageGroup(images=list(extra))), model)


def subgroup(name):
    def f(g, m):
        def model():
            if m.subs is None or any(k == name for k, _ in m.subs):
                return False
            m.subs.append((name, Node(extra[:1])))
            return True
        return (lambda: g.add_subgroup(name, ImageGroup(images=extra[:1])), model)
    return f


OPS = [
    ('split by F', split(ByKeyword('F'), by(lambda i: value(i, 'F')))),
    ('split by N', split(ByKeyword('N'), by(lambda i: value(i, 'N')))),
    ('split by the first letter of F', split(ByPattern('F', '(.)'), by(char(0)))),
    ('split by the second letter of F', split(ByPattern('F', '.(.)'), by(char(1)))),
    ('split in two by position', split(parity, parity)),
    ('split with an empty part', split(with_empty, with_empty)),
    ('split losing images', split(losing, lambda i: [('first', i[:1])] if len(i) < 2 else None)),
    ('add an image', add(extra[:1])),
    ('add two images', add(extra)),
    ('add a group', add_group),
    ('add subgroup new', subgroup('new')),
    ('add subgroup first', subgroup('first')),
    ('add subgroup 0', subgroup(0)),
    ('down to the first', None),
    ('down to the last', None),
]


def fail(names, key, msg):
    if len(lines) < 40:
        lines.append('FAIL\t%s\tafter %s: %s' % (key, ', '.join(names) or 'nothing', str(msg).replace('\n', ' | ').replace('\t', ' ')))


def explore(images, ops):
    """Runs one sequence. Returns False when a longer one makes no sense."""
    root, model = ImageGroup(images=list(images)), Node(images)
    g, m = root, model
    names = []
    frozen = []
    counts['sequences'] += 1
    for n, o in enumerate(ops):
        name, op = OPS[o]
        names.append(name)
        if op is None:
            if m.subs is None or not m.subs:
                for k in ('first', 0):
                    try:
                        g[k]
                        fail(names, 'getitem', 'a group without subgroups returned subgroup %s' % (k,))
                    except (ValueError, KeyError):
                        pass
                    except Exception as e:
                        fail(names, 'getitem', repr(e))
                return False
            k, m = m.subs[0 if 'first' in name else -1]
            try:
                g = g[k]
            except Exception as e:
                fail(names, 'getitem', repr(e))
                return False
            continue
        act, expect = op(g, m)
        was = model.dump()
        ok = expect()
        try:
            act()
            done, why = True, ''
        except Exception as e:
            done, why = False, repr(e)
        if done != ok:
            fail(names, 'accepted' if done else 'refused', 'accepted' if done else why)
            return False
        if not ok:
            counts['refused'] += 1
            # a refused operation on a plain list of images leaves it alone
            if isinstance(was, list):
                try:
                    got = dump(root)
                    if got != was:
                        fail(names, 'refused-changes', '%s instead of %s' % (got, was))
                except Exception as e:
                    fail(names, 'refused-changes', repr(e))
            return False
        counts['states'] += 1
        if n + 1 < len(ops):
            if n + 2 == len(ops):
                frozen.append((MeasurementGroup(root), model.dump()))
            continue
        check(names, root, model)
    for f, was in frozen:
        try:
            if dump(f) != was:
                fail(names, 'frozen', 'the measurement group made before became %s, was %s' % (dump(f), was))
        except Exception as e:
            fail(names, 'frozen', repr(e))
    return True


def check(names, root, model):
    want = model.dump()
    for what, g in (('group', root), ('measurement-group', None)):
        try:
            if g is None:
                g = MeasurementGroup(root)
                if g.is_leaf():
                    for k, i in enumerate(model.images):
                        if g[k] is not i:
                            raise Exception('item %d is another image' % k)
                for k in ('no such', 99):
                    try:
                        g[k]
                        raise Exception('item %s exists' % (k,))
                    except KeyError:
                        pass
            elif not g.is_leaf():
                try:
                    g['no such']
                    raise Exception('item exists')
                except KeyError:
                    pass
            got = dump(g)
            if got != want:
                fail(names, what, '%s instead of %s' % (got, want))
            text = str(g)
            for i in set(model.leaves()):
                n = sum(1 for l in text.split('\n') if l.strip() == str(i))
                if n != sum(1 for j in model.leaves() if j is i):
                    fail(names, what + '-text', 'image %d is shown %d times in %s' % (i.id, n, text))
        except Exception as e:
            fail(names, what, repr(e))


def walk(images, prefix):
    for o in range(len(OPS)):
        ops = prefix + [o]
        if explore(images, ops) and len(ops) < depth:
            walk(images, ops)


if files:
    loaded = load_fits_images(files)
    if not loaded.is_leaf() or [i.file for i in loaded] != files:
        fail([], 'loaded', 'the group holds %s' % [i.file for i in loaded])
    if isinstance(loaded, ImageGroup):
        images = [i for i in loaded]
else:
    images = []
check([], ImageGroup(images=list(images)), Node(images))
walk(images, [])
with open(out, 'w') as f:
    for l in lines:
        f.write(l + '\n')
    f.write('COUNT\t%d\t%d\t%d\n' % (counts['sequences'], counts['states'], counts['refused']))
