"""Registry of properties and their rules."""
PROPS = {}


class Prop:
    def __init__(self, pid, tus, fns=(), custom=(), cfg='full', inst='', technique='', thorough_tus=None, level_note='', note=''):
        self.pid, self.tus, self.fns, self.custom, self.cfg, self.inst = pid, list(tus), list(fns), list(custom), cfg, inst
        self.technique, self.level_note, self.note = technique, level_note, note
        PROPS[pid] = self


def load_all():
    import importlib, os
    d = os.path.dirname(os.path.abspath(__file__)) + '/props'
    for f in sorted(os.listdir(d)):
        if f.endswith('.py') and f != '__init__.py':
            importlib.import_module('sa.props.' + f[:-3])
    return PROPS


def data(files):
    """the data rules alone (sa/data.py) for these files"""
    from .spec import Grp
    g = Grp('(?!)', 'data', file=files)
    g.data = True
    return g


def mod(pid, tus, files, why, skip=None, drop=(), fns=(), **kw):
    """a property of a subsystem: every function of the given files"""
    from .spec import Grp
    pk = {k: kw.pop(k) for k in ('custom', 'cfg', 'inst', 'technique', 'note') if k in kw}
    skip = DEFSKIP + ('|' + skip if skip else '')
    drop = list(drop)
    if not kw.pop('trace', False): drop.append(TRACE)
    g = Grp('.', why, skip=skip, file=files, drop=drop, **kw)
    g.data = True
    from .life import closures
    pk['custom'] = [closures(files)] + list(pk.get('custom', ()))
    return Prop(pid, tus, list(fns) + [g], **pk)


TRACE = r'^call (vt::theTrace|[^(]*(vt::trace::|[tT]race_note|TraceScoped))'
DEFSKIP = r'(::|^)(dump\w*|print\w*|operator<<|format_as|to_string|toString|humanReadable\w*|name|stringize\w*|get\w*String|getName|label)$|::debug::|::detail::tags'
