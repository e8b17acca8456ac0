"""Builds library objects from workload data through the public API and turns them back into plain values."""
import importlib
import sys

from . import core
from . import model as M
from .core import Violation, describe


class World:
    def __init__(self):
        self.r = importlib.import_module('utg.relations')
        self.words = importlib.import_module('utg.words')
        self.templates = importlib.import_module('utg.templates')
        self.dictionary = importlib.import_module('utg.dictionary')
        self.lexicon = importlib.import_module('utg.lexicon')
        self.constructors = importlib.import_module('utg.constructors')
        self.exceptions = importlib.import_module('utg.exceptions')
        self.data = importlib.import_module('utg.data')
        self.logic = importlib.import_module('utg.logic')
        self.transformators = importlib.import_module('utg.transformators')
        self._rec = {}
        for g in M.GROUPS:
            rel = getattr(self.r, g, None)
            for v in M.VALUES[g]:
                self._rec[(g, v)] = getattr(rel, v, None)
        self.types = {t: self._rec[('WORD_TYPE', t)] for t in M.TYPES}
        self.type_names = {id(v): t for t, v in self.types.items()}

    # plain -> library
    def rec(self, g, v):
        return self._rec[(g, v)]

    def props(self, p):
        return self.words.Properties(*[self._rec[(g, v)] for g, v in p.items()])

    def word(self, w):
        if not w['props'] and w.get('default'):
            return self.words.Word(type=self.types[w['type']], forms=list(w['forms']))
        return self.words.Word(type=self.types[w['type']], forms=list(w['forms']), properties=self.props(w['props']))

    def form(self, word, props=None, fprops=None):
        return self.words.WordForm(word,
                                   properties=None if props is None else self.props(props),
                                   form_properties=None if fprops is None else self.props(fprops))

    def external(self, e):
        if 'int' in e:
            return self.constructors.construct_integer(e['int'])
        return self.form(self.word(e['word']), e['props'], e['fprops'])

    def template(self, text, names):
        t = self.templates.Template()
        t.parse(text, externals=list(names))
        return t

    # library -> plain
    def props_of(self, p):
        out = {}
        for k, v in p.serialize().items():
            hit = M.BY_CODE.get((int(k), v))
            if hit is None:
                raise Violation('bad-record', 'property record holds unknown pair %r: %r' % (k, v))
            out[hit[0]] = hit[1]
        return out

    def word_of(self, w):
        return {'type': self.type_names.get(id(w.type), str(w.type)), 'forms': list(w.forms), 'props': self.props_of(w.properties)}

    def form_of(self, f):
        return {'word': self.word_of(f.word), 'props': self.props_of(f.properties), 'fprops': self.props_of(f.form_properties)}

    # judging
    def is_error(self, error, kind):
        cls = getattr(self.exceptions, kind, None)
        return cls is not None and isinstance(error, cls)


def expected(fn):
    """-> ('ok', value) or ('error', kind)"""
    try:
        return ('ok', fn())
    except M.ModelError as e:
        return ('error', e.kind)


def judge(world, cls, what, want, result, error):
    """want is the outcome prescribed by the model"""
    if want[0] == 'ok':
        if error is not None:
            raise Violation(cls + '-error', '%s: expected %s, failed with %s' % (what, show(want[1]), describe(error)))
        if result != want[1]:
            raise Violation(cls + '-wrong', '%s: expected %s, got %s' % (what, show(want[1]), show(result)))
    else:
        if error is None:
            raise Violation(cls + '-no-error', '%s: expected %s, got %s' % (what, want[1], show(result)))
        if not world.is_error(error, want[1]):
            raise Violation(cls + '-other-error', '%s: expected %s, failed with %s' % (what, want[1], describe(error)))


def show(x):
    s = repr(x)
    return s if len(s) < 400 else s[:400] + '…'
