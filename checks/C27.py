import collections.abc
import copy
import itertools
import json
import os
import subprocess
import sys

from mc import bp, spec
from mc.core import Violation, call, must, require, short

PROPERTY = 'C27'
LEVEL = 'exploration'
RULE = ('explicit-state search: state = values of an option or header object and of a copy of it, transitions = every operation of the mapping '
        'and attribute interfaces (set, also to None, update in every form, setdefault, delete, pop, popitem, clear, unknown names, copy) with two values per '
        'field, all sequences up to depth 3 (thorough 4), compared after each step with a pair of plain dicts: values through '
        'every way of reading them, length, order, equality, repr, text, and for headers the encoded bytes against a freshly '
        'made header and against struct. Non-trivial: distinct (kind, values, values of the copy).')
ASSUMPTIONS = []
BLOCK = 8

KINDS = {
    'BloscArgs': (bp.BloscArgs, [('typesize', 8, 4), ('clevel', 7, 0), ('shuffle', True, 2), ('cname', 'blosclz', 'zstd')]),
    'BloscpackArgs': (bp.BloscpackArgs, [('offsets', True, False), ('checksum', 'adler32', 'None'), ('max_app_chunks', 5, 0)]),
    'MetadataArgs': (bp.MetadataArgs, [('magic_format', b'JSON', b'ABCDEFGH'), ('meta_checksum', 'adler32', 'md5'), ('meta_codec', 'zlib', 'None'),
                                       ('meta_level', 6, 0), ('max_meta_size', 100, 0)]),
    'BloscpackHeader': (bp.headers.BloscpackHeader,
                        [('format_version', 3, 255), ('offsets', False, True), ('metadata', False, True), ('checksum', 'None', 'sha512'),
                         ('typesize', 0, 255), ('chunk_size', 500, 2 ** 31 - 17), ('last_chunk', 500, 3), ('nchunks', 10, 2 ** 62),
                         ('max_app_chunks', 0, 2 ** 61)]),
    'MetadataHeader': (bp.headers.MetadataHeader,
                       [('magic_format', b'', b'JSON'), ('meta_options', '00000000', '00000000'), ('meta_checksum', 'None', 'crc32'),
                        ('meta_codec', 'None', 'zlib'), ('meta_level', 0, 9), ('meta_size', 0, 2 ** 32 - 1), ('max_meta_size', 0, 70000),
                        ('meta_comp_size', 0, 255), ('user_codec', b'', b'12345678')]),
}
# options that may be None (which appends take for the default)
NONE = {'BloscArgs': ('typesize', 'clevel', 'shuffle', 'cname'), 'BloscpackArgs': ('max_app_chunks',),
        'MetadataArgs': ('magic_format', 'meta_checksum', 'meta_level')}
BYTES = {'chunk_size', 'last_chunk', 'meta_size', 'max_meta_size', 'meta_comp_size'}
ENCODED = {}
BAD = ['', 'unknown', '_attrs', 'attributes', 'copy', 'pformat', 3, None]


def operations(kind):
    ops = []
    for name, a, b in KINDS[kind][1]:
        ops += [('item', name, b), ('attribute', name, a), ('attribute', name, b), ('del', name), ('pop', name), ('setdefault', name, b)]
    fields = KINDS[kind][1]
    for name in NONE.get(kind, ()):
        ops += [('item', name, None), ('attribute', name, None)]
    ops += [('update', how) for how in ('0', '1', 'none', 'keywords', 'pairs', 'object', 'one', 'nothing')]
    ops += [('copy', 'copy'), ('copy', 'copy.copy'), ('copy', 'deepcopy'), ('copy', 'init'), ('clear',), ('popitem',), ('swap',),
            ('read',)]
    ops += [('bad', x) for x in BAD]
    return ops


def cases(tier):
    for kind in KINDS:
        n = len(operations(kind))
        for i in range(n):
            for j in range(n):
                yield ['search', kind, i, j]
        for i in range(2 ** min(len(KINDS[kind][1]), 9)):
            yield ['construct', kind, i]
    yield ['defaults', 0]


def observe(kind, obj, model, what, ctx):
    """The object shows exactly the values of the model, whatever way it is asked."""
    names = [f[0] for f in KINDS[kind][1]]
    require(len(obj) == len(names), '%s: length is %d', what, len(obj))
    require(list(obj) == names and list(obj.keys()) == names, '%s: names are %s', what, list(obj))
    for n in names:
        require(n in obj, '%s: %s is not in it', what, n)
        for how, v in (('[]', obj[n]), ('.', getattr(obj, n)), ('get', obj.get(n, 'nothing'))):
            require(v == model[n] and type(v) is type(model[n]), '%s: %s through %s is %r, not %r', what, n, how, v, model[n])
    require(dict(obj) == model, '%s: as dict %r', what, dict(obj))
    require(dict(**obj) == model, '%s: as keywords %r', what, dict(**obj))
    require(list(obj.items()) == [(n, model[n]) for n in names], '%s: items are %r', what, list(obj.items()))
    require(list(obj.values()) == [model[n] for n in names], '%s: values are %r', what, list(obj.values()))
    require(obj == model and model == obj and not obj != model, '%s: differs from %r', what, model)
    again = must(KINDS[kind][0], **model)
    require(obj == again, '%s: differs from %r', what, again)
    require(repr(obj) == repr(again), '%s: repr is %r', what, repr(obj))
    namespace = {kind: KINDS[kind][0]}
    require(dict(eval(repr(obj), namespace)) == model, '%s: repr %r does not give it back', what, repr(obj))
    require(eval(repr(obj), {kind: lambda **kw: list(kw)}) == names, '%s: repr %r is in another order', what, repr(obj))
    require(eval(str(obj), {}) == model, '%s: str is %r', what, str(obj))
    for indent in (0, 4, 7):
        lines = obj.pformat(indent=indent).split('\n')
        require(lines[0] == kind + ':' and len(lines) == len(names) + 1, '%s: text %r', what, lines)
        for n, l in zip(names, lines[1:]):
            v = model[n]
            if n in BYTES and kind.endswith('Header') and v != -1:
                want = bp.pretty.double_pretty_size(v)
            else:
                want = repr(v)
            require(l == ' ' * indent + n + ': ' + want, '%s: text of %s is %r', what, n, l)
    for x in BAD:
        require(x not in obj, '%s: %r is in it', what, x)
    if kind.endswith('Header'):
        raw = must(obj.encode)
        require(raw == again.encode(), '%s: encoded as %r', what, raw)
        if kind == 'BloscpackHeader':
            want = bytearray(spec.header(model['offsets'], model['metadata'], model['checksum'], model['typesize'], model['chunk_size'],
                                         model['last_chunk'], model['nchunks'], model['max_app_chunks']))
            want[4] = model['format_version']
            require(raw == bytes(want), '%s: encoded as %r', what, raw)
            require(obj.total_prospective_chunks == model['nchunks'] + model['max_app_chunks'], '%s: total chunks', what)
            require(obj.checksum_impl.name == model['checksum'], '%s: checksum implementation', what)
        require(dict(KINDS[kind][0].decode(raw)) == model, '%s: decoded as %r', what, raw)
        ENCODED[kind, repr(sorted(model.items()))] = raw
    if kind == 'MetadataArgs':
        require(obj.should_compress == (model['meta_codec'] != 'None') and obj.meta_codec_name == model['meta_codec'] and
                obj.meta_codec_impl.name == model['meta_codec'] and obj.effective_max_meta_size(3) == model['max_meta_size'],
                '%s: derived values', what)
    ctx.count('evaluations')


def apply(kind, op, pair, models):
    """Run one operation on the real pair of objects and on the models."""
    cls, fields = KINDS[kind]
    obj, model = pair[0], models[0]
    what = '%s after %s' % (kind, op)
    if op[0] == 'item':
        obj[op[1]] = op[2]
        model[op[1]] = op[2]
    elif op[0] == 'attribute':
        setattr(obj, op[1], op[2])
        model[op[1]] = op[2]
    elif op[0] == 'setdefault':
        r = must(obj.setdefault, op[1], op[2])
        require(r == model[op[1]], '%s: gives %r', what, r)
    elif op[0] == 'update':
        a, b = ({f[0]: f[1 + i] for f in fields} for i in (0, 1))
        new = {'0': a, 'pairs': a, 'object': a, '1': b, 'keywords': b, 'none': dict(a, **{n: None for n in NONE.get(kind, ())}),
               'one': {fields[1][0]: fields[1][2]}, 'nothing': {}}[op[1]]
        if op[1] == 'keywords':
            must(obj.update, **new)
        elif op[1] == 'pairs':
            must(obj.update, list(new.items()))
        elif op[1] == 'object':
            must(obj.update, cls(**new))
        else:
            must(obj.update, new)
        model.update(new)
    elif op[0] in ('del', 'pop', 'clear', 'popitem'):
        f = {'del': lambda: obj.__delitem__(op[1]), 'pop': lambda: obj.pop(op[1]), 'clear': obj.clear, 'popitem': obj.popitem}[op[0]]
        r = call(f)
        require(not r.ok and isinstance(r.exc, NotImplementedError), '%s: %s', what, r)
    elif op[0] == 'copy':
        how = {'copy': obj.copy, 'copy.copy': lambda: copy.copy(obj), 'deepcopy': lambda: copy.deepcopy(obj), 'init': lambda: cls(**obj)}[op[1]]
        pair[1] = must(how)
        require(type(pair[1]) is type(obj) and pair[1] is not obj, '%s: %r', what, pair[1])
        models[1] = dict(model)
    elif op[0] == 'swap':
        pair.reverse()
        models.reverse()
    elif op[0] == 'read':
        list(iter(obj)), list(obj.items()), repr(obj), str(obj), obj.pformat()
        if kind.endswith('Header'):
            must(obj.encode)
    else:
        for f in (lambda: obj[op[1]], lambda: obj.__setitem__(op[1], 1)):
            r = call(f)
            require(not r.ok and isinstance(r.exc, KeyError), '%s: %s', what, r)
        require(obj.get(op[1], 'd') == 'd', '%s: get', what)


def start(kind):
    cls, fields = KINDS[kind]
    models = [{f[0]: f[1] for f in fields}, {f[0]: f[1] for f in fields}]
    return [cls(**models[0]), cls(**models[1])], models


def run(case, ctx):
    g = case[0]
    if g == 'construct':
        _, kind, i = case
        cls, fields = KINDS[kind]
        model = {f[0]: f[1 + (i >> k & 1)] for k, f in enumerate(fields)}
        observe(kind, must(cls, **model), model, '%s %s' % (kind, model), ctx)
        observe(kind, must(cls, *[model[f[0]] for f in fields]), model, '%s %s' % (kind, model), ctx)
        ctx.nontrivial(kind, i)
        return
    if g == 'defaults':
        # an object made without arguments is the default, however often and whatever happened to earlier ones
        for kind, (cls, fields) in KINDS.items():
            first = dict(cls())
            for f in fields:
                o = cls()
                for v in f[1:]:
                    o[f[0]] = v
                    require(dict(cls()) == first, '%s: the default changes with an object: %r', kind, dict(cls()))
                if f[0] == 'max_app_chunks' and kind == 'BloscpackHeader':
                    continue            # needs a chunk count
                a, b = cls(**{f[0]: f[2]}), dict(first)
                b[f[0]] = f[2]
                require(dict(a) == b, '%s(%s=%r) is %r', kind, f[0], f[2], a)
                ctx.nontrivial(kind, f[0])
        d = bp.defaults
        require(dict(bp.BloscArgs()) == dict(bp.args.DEFAULT_BLOSC_ARGS) and dict(bp.BloscArgs()) == dict(
            typesize=d.DEFAULT_TYPESIZE, clevel=d.DEFAULT_CLEVEL, shuffle=d.DEFAULT_SHUFFLE, cname=d.DEFAULT_CNAME), 'defaults of BloscArgs')
        require(dict(bp.BloscpackArgs(checksum=None))['checksum'] == 'None', 'checksum None')
        return
    _, kind, i, j = case
    ops = operations(kind)
    depth = 4 if ctx.tier == 'thorough' and len(ops) < 45 else 3
    # the third (and fourth) operation: every one, from the state two operations lead to
    for tail in itertools.product(range(len(ops)), repeat=depth - 2):
        pair, models = start(kind)
        done = []
        for k in (i, j) + tail:
            apply(kind, ops[k], pair, models)
            done.append(ops[k])
            key = repr((sorted(models[0].items()), sorted(models[1].items())))
        for n in (0, 1):
            quick = ctx.state((kind + key + str(n)).encode())
            if quick or ('read',) in done:        # what was read before may be remembered
                observe(kind, pair[n], models[n], '%s %s after %s' % ('object' if not n else 'copy', kind, done), ctx)
            else:
                require(dict(pair[n]) == models[n], '%s after %s is %r, not %r', kind, done, dict(pair[n]), models[n])
                if kind.endswith('Header'):
                    k = kind, repr(sorted(models[n].items()))
                    if k not in ENCODED:
                        ENCODED[k] = must(must(KINDS[kind][0], **models[n]).encode)
                    require(must(pair[n].encode) == ENCODED[k], '%s after %s: encoded as %r', kind, done, pair[n].encode())
        ctx.count('transitions', depth)
